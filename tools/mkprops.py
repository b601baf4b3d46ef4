#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the statements are easy to edit)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
P = []
F, AN, NO, ME, PM = 'PyNite/FEModel3D.py', 'PyNite/Analysis.py', 'PyNite/Node3D.py', 'PyNite/Member3D.py', 'PyNite/PhysMember.py'
SP, QU, PL, MS, LC = 'PyNite/Spring3D.py', 'PyNite/Quad3D.py', 'PyNite/Plate3D.py', 'PyNite/Mesh.py', 'PyNite/LoadCombo.py'
SZ, SY, FE, SE, MA = 'PyNite/BeamSegZ.py', 'PyNite/BeamSegY.py', 'PyNite/FixedEndReactions.py', 'PyNite/Section.py', 'PyNite/Material.py'


def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state:
        a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe:
        a['observe_at'] = observe
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))


# ---------------------------------------------------------------- model definition
p('P01', 'Names of model objects are unique and never overwrite another object',
  "Adding a node, auxiliary node, material, section, spring, member, plate or quad under a name already used in the same collection is rejected and leaves the existing object in place. When no name is given, the generated name differs from every name in use, whatever was added or deleted before.",
  ['histories', 'inputs'], 'every sequence of additions and deletions and every choice of names',
  'The tests build a few fixed models; none adds after a deletion or collides with a generated name.',
  [F], [('duplicate test before the insertion; generated-name search', F + ': add_node, add_auxnode, add_material, add_section, add_spring, add_member, add_plate, add_quad'), ('unique_name', F)],
  [('nodes, members, ... dictionaries', 'name -> object', F)], ['the collections of the model'])
p('P02', 'Invalid definitions are rejected and leave the model unchanged',
  "A definition that cannot be honoured - a name that is not in the model, an unknown load or displacement direction, an unknown spring degree of freedom - raises an error. When adding an element, a load, a support, an enforced displacement or end releases, or deleting an object, raises an error, the model's objects, loads and supports are exactly what they were before the call.",
  ['inputs'], 'every call of a model-building operation with any combination of valid and invalid arguments',
  'No test passes invalid arguments to most operations, and none compares the model before and after a failed call.',
  [F], [('look-ups and direction tests that precede the mutation', F + ': add_*_load, def_*'), ('lookup', F)], None, ['exception raised; model dictionaries and load lists'])
p('P03', 'Every defined property, support, release and load is recorded as given',
  "What the caller defines is what the model stores: coordinates, material, section and element properties, each support flag, each end release, each enforced displacement, each support spring's stiffness and direction, and each load's direction, magnitude, position and load case end up in the corresponding slot of the object addressed and nowhere else. Documented defaults apply when an argument is omitted, and the end position of a distributed load defaults to the member's end.",
  ['inputs'], 'every argument combination of every definition operation',
  'Tests only exercise a few of the slots (for example two of the twelve releases) through final analysis results.',
  [F, NO, ME, QU, PL, SP, MA, SE, LC], [('constructors and def_/add_ methods copy arguments into attributes', F)], None, ['attributes of nodes, members, plates, springs'])
p('P04', 'Any edit of a solved model marks it as unsolved',
  "After any operation that adds, changes or removes a node, element, mesh, material, section, load, load combination, support, release or enforced displacement, and after generating a mesh, the model no longer reports that it holds a valid solution (renaming changes names only and keeps it). Only a completed analysis marks it solved again.",
  ['histories'], 'every interleaving of edits and analyses',
  'No test edits a model after solving it and looks at the solution flag.',
  [F, AN], [('solution flag reset in every mutator', F), ('solution flag set at the end of each analysis', F)], [('solution', 'type of the last valid solution or None', F)], ['model.solution'])
p('P05', 'Deleting, merging and renaming keep every reference consistent',
  "Deleting a node also removes everything attached to it, deleting loads removes all and only the loads, merging duplicate nodes re-attaches every element to the surviving node and keeps its supports, support springs, loads and enforced displacements, and renaming keeps each object's own name equal to the name it is stored under. No element is ever left attached to an object that is no longer part of the model.",
  ['histories'], 'every model and every sequence of deletions, merges and renames',
  'Only the merging of mesh nodes is exercised, on one or two meshes.',
  [F, MS], [('delete_node, delete_auxnode, delete_spring, delete_member, delete_mesh, delete_loads', F), ('merge_duplicate_nodes', F), ('rename', F)], None, ['end nodes of the elements'])
p('P06', 'Independent objects never share mutable state',
  "Two models, load combinations, meshes or elements created independently do not influence one another: no container that one of them modifies is reachable from another through a default argument or a class-level attribute, and library calls do not modify lists passed in by the caller.",
  ['histories', 'inputs'], 'every sequence of constructions and modifications',
  'Tests build each model in isolation with explicit arguments.',
  [F, LC, MS, SP, ME, NO], [('default arguments and class attributes', 'all constructors and add_ methods')], None, ['attributes of independently created objects'])
# ---------------------------------------------------------------- assembly and analysis
p('A01', 'Global stiffness matrices are the sum of the element stiffnesses',
  "For every model and load combination, each entry of the global stiffness matrix is the sum of the matching entries of the stiffness matrices of the active members, springs, plates and quads, plus the stiffness of every active support spring at its own degree of freedom, and nothing else; the geometric stiffness matrix likewise collects the active members' geometric stiffnesses. The sparse and the dense assembly give the same matrix.",
  ['inputs', 'configurations'], 'every model topology, node numbering, load combination and storage option',
  'Tests compare a handful of final displacements of small models, nearly always with the sparse solver; no test compares the matrices.',
  [F], [('scatter loops of K and Kg', F + ': K, Kg')], None, ['return values of the assembly functions'])
p('A02', 'Global load vectors collect every nodal load and every fixed end reaction once',
  "For every load combination the global nodal force vector holds, at each degree of freedom, the sum of the nodal loads in that direction whose load case is in the combination, each multiplied by that case's factor, and the global fixed end reaction vector holds the sum of the element fixed end reaction vectors of all members, plates and quads at their own degrees of freedom. Nothing else contributes.",
  ['inputs'], 'every model, load set and load combination',
  'Tests use few load directions per model and mostly one load case.',
  [F], [('FER and P', F + ': FER, P')], None, ['return values of the two functions'])
p('A03', 'Each load acts once, scaled by the factor of its own load case',
  "In member fixed end reactions, member internal force diagrams, plate and quad fixed end reactions, and every other consumer of loads, each load contributes exactly once with the factor that the load combination gives to the load's own case, and loads whose case is not in the combination contribute nothing. All consumers agree on which loads take part.",
  ['inputs'], 'every combination of load cases, factors, load types and directions',
  'Most tests use one load case with factor 1, for which a missing, wrong or repeated factor is invisible.',
  [ME, QU, PL, F], [('loops over load records and combination factors', ME + ': _fer_unc, _segment_member; ' + QU + ': fer; ' + PL + ': fer; ' + F + ': P')], None, ['fixed end reaction vectors; member diagrams'])
p('A04', 'Displacements stored by an analysis solve the partitioned equilibrium equations',
  "For every analysis type, solver option and load combination, the free displacements stored for a combination are the solution of K11 D1 = P1 - FER1 - K12 D2, where K is the stiffness for that combination (plus the geometric stiffness in a second-order analysis) and D2 the enforced displacements, and enforced degrees of freedom keep their enforced values. An exactly singular stiffness is reported as an error, never stored as a result.",
  ['inputs', 'configurations'], 'every model, analysis entry point, solver option and load combination',
  'Tests compare a few numbers of a few models, mostly with one of the six analysis/solver combinations and without enforced displacements.',
  [F, AN], [('partition, solve, store', F + ': analyze, analyze_linear, analyze_PDelta; ' + AN + ': _partition, _PDelta_step')], None, ['node displacements', 'model displacement vectors'])
p('A05', 'Degrees of freedom are numbered, split and stored consistently',
  "Nodes and elements are numbered contiguously without repetition, each nodal degree of freedom belongs to exactly one of the free or the known set - known exactly when it is supported or has an enforced displacement, the enforced value taking precedence over a plain support - and the solved displacement of each degree of freedom is stored in the matching component of the matching node and of the global vector. No displacement is shifted, swapped or lost.",
  ['inputs'], 'every combination of supports and enforced displacements on every node',
  'Tests support nodes in a few patterns and read a few displacement components.',
  [F, AN], [('_renumber, _partition_D, _store_displacements, _sum_displacements', AN), ('_partition', AN)], None, ['node displacement tables'])
p('A06', 'Reactions equal the forces the elements and springs exert minus applied loads',
  "The reaction stored at a supported degree of freedom is the sum of the end forces of all attached active members, springs, plates and quads at that node in that direction minus the applied nodal loads of the combination, and the force of an active support spring is added with the sign that opposes the displacement. Unsupported directions have zero reaction.",
  ['inputs'], 'every support pattern, element mix and load combination',
  'Tests read a few reaction components of beam models; support springs, plates and mixed supports are hardly covered.',
  [AN], [('_calc_reactions', AN)], None, ['RxnFX ... RxnMZ'])
p('A07', 'The statics check compares all applied loads with all reactions',
  "For each analysed load combination the statics check reports, for each of the six global directions, the sum of all applied nodal, member, plate and quad loads (forces and their moments about the global origin) and the sum of all reactions (with the moments of the force reactions), so that in equilibrium the two sums are opposite. Every node and every element takes part.",
  ['inputs'], 'every model and load combination',
  'The printed table is not compared with anything in the tests.',
  [AN], [('_check_statics', AN)], None, ['printed table'])
p('A08', 'Every analysis step agrees on which load combinations were requested',
  "When combination tags are given, exactly the combinations having at least one of the tags are solved, and the stiffness, displacement, reaction, tension/compression-only and statics steps all use that same set; without tags every combination is processed. A model without any load combination is analysed for one default combination with load case 1 scaled by one.",
  ['inputs', 'configurations'], 'every set of combinations, tags and requested tags',
  'One or two tests use tags, with a single tag.',
  [AN, F], [('_identify_combos and the combination loops', AN)], None, ['which combinations have results'])
p('A09', 'The stability check examines every degree of freedom of every node',
  "When requested, the stability check looks at the diagonal stiffness of each of the six degrees of freedom of every node and raises an error exactly when one of the unsupported ones has (numerically) zero stiffness. Supported degrees of freedom and nodes with full stiffness never trigger it.",
  ['inputs'], 'every model and every unstable degree of freedom',
  'A single test covers one unstable direction.',
  [AN, F], [('_check_stability', AN)], None, ['exception raised'])
p('A10', 'Tension/compression-only analysis never accepts a wrong-sign element',
  "An analysis only accepts a combination's solution when no active tension-only member or spring is in compression and no active compression-only one in tension beyond the tolerance; every offending element (and one-way support spring) is deactivated for that combination only and the solution repeated. If the iteration limit is reached an error is raised instead of storing the non-converged state as a solution.",
  ['inputs', 'histories'], 'every model with one-way elements and every deactivation sequence',
  'A few tests cover one or two one-way elements in one combination.',
  [AN, F], [('_check_TC_convergence', AN), ('iteration loops', F + ': analyze; ' + AN + ': _PDelta_step')], [('active', 'per combination activity', ME + ', ' + SP)], ['active flags'])
p('A11', 'Each analysis starts from the definition, not from an earlier run',
  "Running an analysis again - after another analysis type, with other combinations or after edits - starts with every element and support spring active, freshly divided members, freshly numbered degrees of freedom, and no displacement left over from the previous run influencing the new solution. Analysing the same model twice gives the same results.",
  ['histories'], 'every sequence of analyses and edits',
  'Tests analyse each model once.',
  [AN, F, PM], [('_prepare_model', AN)], [('active flags, sub members, displacement vectors', 'state kept between runs', F)], ['results after re-analysis'])
# ---------------------------------------------------------------- elements
p('E01', 'Member stiffness matrices are the exact beam matrices',
  "The local stiffness matrix of a member is the Euler-Bernoulli space frame matrix for its E, G, A, Iy, Iz, J and length, and its geometric stiffness is the consistent beam-column matrix for the axial force; both are symmetric and annihilate rigid body translation. The stiffness of a two-node spring is its axial spring constant acting along its axis only.",
  ['inputs'], 'all section, material and length values',
  'Tests evaluate a few members with round numbers, where many entries never influence the checked result.',
  [ME, SP], [('k, kg', ME), ('k', SP)], None, ['the returned matrices'])
p('E02', 'Fixed end reactions are statically equivalent to the load they replace',
  "For a point force, moment, torque or axial load at any position and for a linearly varying transverse or axial load between any two positions, the fixed end reactions in both bending planes balance the load in force and moment, and equal the work-equivalent clamped-beam reactions. The assembled member vector places them at the degrees of freedom of the load's direction.",
  ['inputs'], 'all load positions, magnitudes, directions and member lengths',
  'Tests use one or two load shapes in one plane.',
  [FE, ME], [('FER_ functions', FE), ('_fer_unc', ME)], None, ['fixed end reaction vectors'])
p('E03', 'Local axes are orthonormal and right-handed for every orientation',
  "The direction cosines used to transform members, springs, plates and quads form a right-handed orthonormal triad whose first axis runs along the element from its first to its second node, for horizontal, vertical, inclined and rotated elements alike, and every node block of the transformation uses that same triad. For members the documented convention for the local y and z axes holds.",
  ['inputs'], 'all node positions, rotations and auxiliary nodes',
  'Tests place members along a few directions.',
  [ME, SP, QU, PL], [('T', ME + ', ' + SP + ', ' + QU + ', ' + PL)], None, ['the transformation matrices'])
p('E04', 'Conversions between local and global quantities are mutually consistent',
  "Global stiffness, geometric stiffness, end forces and fixed end reactions of every element are the transform of the local ones and the local displacements are the transform of the nodal displacements of the element's own nodes in order, so that local and global results describe the same state. Local end forces equal local stiffness times local displacements plus fixed end reactions.",
  ['inputs'], 'all elements, orientations and displacement states',
  'Tests mostly look at global results of one or two elements.',
  [ME, SP, QU, PL], [('K, Kg, F, f, d, D, FER', ME + ', ' + SP + ', ' + QU + ', ' + PL)], None, ['the returned vectors'])
p('E05', 'End releases transmit no force and leave the rest of the member exact',
  "Condensing the released degrees of freedom gives the stiffness and fixed end reactions for which released end forces vanish identically, and unreleased entries follow from static condensation with rows and columns kept in their original order. This holds for every release pattern.",
  ['inputs'], 'every pattern of the twelve releases, all properties and loads',
  'Tests cover two or three release patterns.',
  [ME], [('_partition, k, fer, f, d', ME)], None, ['local stiffness, fixed end reactions, end forces'])
p('E06', 'Diagram segments satisfy the beam differential relations',
  "Within a segment of a member, shear changes by the integral of the distributed load, moment by the integral of shear, slope by the integral of moment over bending stiffness, deflection by the integral of slope, and axial force by the integral of axial load, in both bending planes with their sign conventions; reported maxima and minima are attained and bound every value on the segment.",
  ['inputs'], 'all segment loads, lengths, stiffnesses and positions',
  'Tests sample a few positions of a few diagrams.',
  [SZ, SY], [('shear, moment, slope, deflection, axial, Torsion, max_/min_', SZ + ', ' + SY)], None, ['values returned by the diagram functions'])
p('E07', 'Member diagrams start from the end forces and account for every load',
  "The internal force diagrams of a member start from its end forces and end displacements, are divided at every load discontinuity, and jump by exactly the factored point loads and accumulate exactly the factored distributed loads acting at each position. The two bending planes and the axial/torsional diagrams agree with the member end forces.",
  ['inputs'], 'all load layouts on a member and all combinations',
  'Tests use a few load layouts.',
  [ME], [('_segment_member', ME)], None, ['shear, moment, axial, torque, deflection along the member'])
p('E08', 'Plate and quad matrices and results use the right degrees of freedom',
  "Plates and quads combine bending and membrane stiffness at the correct degrees of freedom of their four nodes in order, apply pressures as work-equivalent nodal forces summing to pressure times area, and recover forces, moments and stresses from their own nodal displacements with the isotropic plane-stress and plate constitutive laws. Matrices are symmetric.",
  ['inputs'], 'all geometries, thicknesses, materials, stiffness modifiers and pressures',
  'Tests compare a few deflections and moments of rectangular plates with loose tolerances.',
  [QU, PL], [('k, k_b, k_m, fer, shear, moment, membrane', QU + ', ' + PL)], None, ['element matrices and results'])
# ---------------------------------------------------------------- results
p('R01', 'Results always belong to the requested load combination and current solution',
  "Asking a member for any diagram value, extreme or array for a load combination always evaluates the diagram of that combination as solved by the latest analysis, whatever was asked before and for whichever combination. Cached data of another combination, or of an earlier analysis, is never used.",
  ['histories'], 'every order of result queries, combinations and re-analyses',
  'Tests query one combination in one order after one analysis.',
  [ME, PM], [('_solved_combo test before use of the segments', ME + ', ' + PM)], [('_solved_combo', 'combination for which segments were computed', ME)], ['values returned'])
p('R02', 'Result queries for the two planes, point values, extremes and arrays agree',
  "For each requested direction a point query, the maximum, the minimum and the array query of the same quantity refer to the same bending plane, sign convention and second-order setting; the maximum (minimum) is the largest (smallest) over all parts of the member and an array has the requested number of points running from one end to the other. An unknown direction never silently returns the other plane's value, and an array request with a position outside the member is rejected.",
  ['inputs', 'configurations'], 'all directions, positions, combinations and both analysis types',
  'Tests compare single values for selected directions.',
  [ME], [('shear, moment, torque, axial, deflection and their max_, min_, _array forms', ME)], None, ['values returned'])
p('R03', 'A member with intermediate nodes reports as one continuous member',
  "For a member divided by intermediate nodes, a query at a position is answered by the part containing that position with the position measured from that part's start, extremes are taken over all parts, and end forces come from the first and last part. No position between the ends is unanswered.",
  ['inputs'], 'all numbers and positions of intermediate nodes and all query positions',
  'One or two tests query a divided member.',
  [PM], [('find_member and the delegating queries', PM)], None, ['values returned'])
p('R04', 'Reading, plotting, rendering and reporting never change the model or results',
  "Result queries, plots, renderings and reports leave nodes, elements, loads, supports, combinations, displacements and reactions as they were. Only internal diagram caches may be refreshed.",
  ['histories'], 'every sequence of read operations',
  'No test compares a model before and after rendering or reporting.',
  [ME, PM, 'PyNite/Rendering.py', 'PyNite/Visualization.py', 'PyNite/Reporting.py', QU, PL, SP], [('read operations assign nothing but caches', 'result methods')], None, ['model state after read operations'])
p('R05', 'Deactivated members report no internal forces',
  "A tension-only or compression-only member that was deactivated for a combination contributes no stiffness, and point queries, extremes and arrays of its shear, moment, torque and axial force for that combination are zero.",
  ['inputs'], 'every one-way member and combination, every query',
  'Tests only look at the axial force of the remaining members.',
  [ME], [('active test at the start of each query', ME)], None, ['values returned'])
p('D01', 'Dividing a physical member preserves its definition and loads',
  "Dividing a member at the nodes lying on it gives parts that together cover it from end to end in order without gap or overlap, each with the member's material, section, orientation and one-way flags, with the end releases only at the outer ends, and with every point load on exactly one part and every distributed load distributed so that its intensity at each position is unchanged.",
  ['inputs'], 'all intermediate node positions and all load layouts',
  'One or two tests divide a member at one node under simple loads.',
  [PM], [('descritize', PM)], None, ['sub members'])
p('G01', 'Meshes cover the requested surface and are registered completely',
  "A generated mesh consists of exactly one element for every cell of the requested surface: a rectangle (with every control line and opening edge as a mesh line, and no element inside an opening), an annulus, a frustrum of a cone or a cylinder at its origin and in its plane or about its axis; elements are attached to their own corner nodes in a consistent order, neighbours share nodes, and no node is left without an element. Every element gets the mesh's material, thickness, stiffness modifiers and element type. Nodes and elements are registered in the mesh and the model under their own names, never in place of anything already in the model; generating a mesh again (for example after adding an opening) replaces its first generation. Every mesh added to a model takes part in the analysis.",
  ['inputs', 'histories'], 'all mesh shapes, sizes, planes, axes, origins, openings, starting names and orders of generation',
  'Tests generate a few meshes of fixed size at fixed places.',
  [MS, F], [('generate of each mesh class; add_*_mesh', MS + ', ' + F), ('_rename_duplicates, _remove_generated', MS), ('_prepare_model', AN)], None, ['mesh nodes and elements'])
p('G02', 'Mesh extremes bound every element for every requested combination',
  "The maximum (minimum) shear or moment of a mesh for a direction (Qx, Qy, Mx, My, Mxy or their global spellings) is the largest (smallest) value of that same component at the corners and the centre of every one of its elements, over the requested load combination, or over all load combinations when none is requested; an unknown direction is rejected.",
  ['inputs'], 'all meshes of rectangles and quads, directions and combinations',
  'Two tests read one extreme each.',
  [MS], [('max_shear, min_shear, max_moment, min_moment', MS)], None, ['values returned'])
p('V01', 'Contours and deformed shapes show the results of the requested load combination',
  "In both renderers the contour value of a node (Mx, My, Mxy, Qx, Qy, Sx, Sy, Txy, dz) is the mean, over the plates and quads at the node, of that component at that node's corner of the element for the requested load combination; every drawn corner carries the value of its own node and every element is drawn around its corners. Nodes, springs, plates and quads of the deformed shape are drawn at their coordinates plus the scale times their displacements, and points of a deformed member at the point of its axis plus the scale times its deflections there. Every result or load factor the renderers read is read for the requested combination.",
  ['inputs'], 'all models, combinations, contour components and scale factors',
  'Rendering tests only check that nothing is raised; the pictures are not compared.',
  ['PyNite/Rendering.py', 'PyNite/Visualization.py'], [('_PrepContour', 'PyNite/Rendering.py, PyNite/Visualization.py'), ('plot_plates, _RenderContours', 'PyNite/Rendering.py, PyNite/Visualization.py'), ('plot_deformed_node, plot_deformed_spring, plot_deformed_member, VisDeformedNode, VisDeformedSpring, VisDeformedMember', 'PyNite/Rendering.py, PyNite/Visualization.py')],
  None, ['node.contour', 'points and values handed to the drawing library'])
p('V02', 'The report lists the values its columns name for every object and load combination',
  "Every table of the report lists every node, member, plate or quad of the model, and result tables list each of them for every load combination; every cell shows the value its column heading names for that object and combination (properties, supports, releases, reactions, displacements, member end forces and extremes, plate and quad forces and stresses at the named corner or the centre). Each table is shown exactly when its documented setting is on, and the settings are on unless the caller says otherwise.",
  ['inputs'], 'all models, combinations and settings',
  'No test creates a report.',
  ['PyNite/Reporting.py', 'PyNite/Report_Template.html'], [('create_report', 'PyNite/Reporting.py'), ('tables of the template', 'PyNite/Report_Template.html')],
  None, ['the text handed to the pdf converter'])
# ---------------------------------------------------------------- out of reach
p('N01', 'Second-order analysis converges to the exact second-order equilibrium',
  "The displacements of a second-order analysis approximate the exact beam-column equilibrium to the stated accuracy, and a load beyond the elastic critical load is reported as unstable.",
  ['inputs'], 'all frames and load levels', 'Benchmarks cover two frames.', [AN], [('_PDelta_step', AN)])
p('N02', 'Plate results converge to the exact solution under mesh refinement',
  "Refining a plate mesh makes displacements and moments converge to thin/thick plate theory.",
  ['inputs'], 'all plate shapes and refinements', 'Tests compare one mesh density per case.', [QU, PL], [('k', QU)])
p('N03', 'Nearly singular structures are reported or solved to stated accuracy',
  "Models whose stiffness is singular only up to rounding are reported as unstable, and all other models are solved to engineering accuracy.",
  ['inputs'], 'all stiffness magnitudes and units', 'A single unstable model is tested.', [F], [('singular matrix handling', F)])
p('N04', 'Rendered pictures show the model correctly',
  "The rendered picture (undeformed geometry, supports, labels, load arrows, colours, camera) corresponds to the model's data.",
  ['inputs'], 'all models and display options', 'Rendering tests only check that no exception is raised.',
  ['PyNite/Rendering.py', 'PyNite/Visualization.py'], [('Renderer', 'PyNite/Rendering.py')])

with open(OUT, 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P))

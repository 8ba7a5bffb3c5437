"""Writes /verif/properties.jsonl (kept as a script so the text stays reviewable)."""
import json, os
P = []
def add(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=["src/fmmax/" + f for f in files],
            mechanism=[dict(name=a, where="src/fmmax/" + b) for a, b in mech],
            observe_at=observe, hook_needed=None)))

add("C01", "A stack's scattering matrix depends only on the stack, not how it was built",
"For any list of layers and thicknesses, every way of building the stack's scattering matrix (in one call, with the scan variant, by appending or prepending layers in any order, by joining substacks, as before/after substack pairs, or, for two or more layers, by changing the outer layers' thicknesses afterwards) yields the same four blocks and the same recorded outer layers. Those blocks are the solution obtained by directly matching the tangential fields of all layers at every interface. This also holds for single layers, zero thickness and optically thick evanescent layers, for which the result stays finite.",
["histories", "inputs"], "every sequence of build operations up to a depth over every short layer word drawn from a small material alphabet",
"The tests compare append, prepend, star product and scan only for a few fixed stacks and one build order each; no test compares with an independent interface-matching solution, and none chains different operations.",
["scattering.py"], [("interface matching and S-matrix recursion", "scattering.py:_extend_s_matrix"), ("two-layer special case", "scattering.py:_pair_s_matrix"), ("star product", "scattering.py:redheffer_star_product"), ("scan build", "scattering.py:stack_s_matrix_scan"), ("thickness edits", "scattering.py:set_end_layer_thickness")],
["blocks and layer records of the returned scattering matrix"])

add("C02", "Fields reconstructed inside a stack solve the boundary value problem",
"For any excitation from either side, the amplitudes and fields reconstructed inside a stack reproduce the prescribed incoming waves, are tangentially continuous across every interface, and satisfy Maxwell's equations between interfaces. Evaluating the same field on a unit-cell grid, at arbitrary coordinates, per layer, for a whole stack or on the automatic grid gives the same values at the same points, with z coordinates that follow the layer boundaries and Bloch-periodic repetition over unit cells.",
["inputs", "configurations"], "every excitation basis vector from both sides, every interface and every evaluation route of all short stacks over a small material alphabet",
"Tests compare a handful of evaluation routes on one stack; continuity at every interface for every excitation, and consistency of z coordinates for unequal layer samplings, are not quantified.",
["fields.py", "scattering.py"], [("interior amplitudes", "fields.py:amplitudes_interior"), ("mode to field conversion", "fields.py:fields_from_wave_amplitudes"), ("3-D assembly", "fields.py:_stack_fields_3d"), ("grid/coordinate evaluation", "fields.py:fields_on_grid"), ("propagation", "fields.py:colocate_amplitudes")],
["interior amplitudes; field arrays and their coordinates"])

add("C03", "Power is conserved and every flux route reports the same power",
"In a lossless stack the total time-average power flux through every plane, in every layer, is the same for any excitation, and with absorbing layers it never increases in the direction of travel away from the sources. The forward and backward fluxes reported from amplitudes (in either of the two decompositions) always add up to the power computed from the transverse electric and magnetic fields, and their per-order sum agrees with the real-space average of the Poynting vector.",
["inputs", "configurations"], "every excitation basis vector and pairwise superposition, every plane of a z-grid, all short stacks over lossless, absorbing, anisotropic and magnetic materials",
"Tests check energy conservation for one or two structures with a single plane-wave excitation, never for arbitrary superpositions, evanescent excitation, or inside patterned layers.",
["fields.py", "scattering.py", "fmm.py"], [("flux decompositions", "fields.py:amplitude_poynting_flux"), ("directional flux", "fields.py:directional_poynting_flux"), ("mode flux", "fields.py:eigenmode_poynting_flux")],
["flux arrays returned for amplitudes; field arrays"])

add("C04", "Reciprocal stacks respond reciprocally and reversed stacks mirror",
"For media with symmetric permittivity and permeability tensors, any two solutions computed at opposite in-plane wavevectors satisfy Lorentz reciprocity between the two faces of the stack. Reversing the order of the layers exchanges the roles of the two sides of the scattering matrix and nothing else.",
["inputs", "configurations"], "all pairs of excitation basis vectors at k and -k for all short stacks over reciprocal materials, symmetric expansions of several lattices",
"No test relates solutions at opposite wavevectors, and stack reversal is only exercised through one internal use.",
["scattering.py", "fmm.py", "fmm_matrices.py"], [("transverse operators", "fmm_matrices.py:omega_script_k_matrix_patterned"), ("stack recursion", "scattering.py:_extend_s_matrix"), ("tensor element ordering", "fmm_matrices.py:transverse_permittivity_fft_anisotropic")],
["outgoing waves for incoming waves, at both wavevectors"])

add("C05", "Layer modes satisfy the truncated Maxwell equations of the given medium",
"For every supported medium (uniform or patterned; isotropic, anisotropic, magnetic) and every formulation, the modes returned for a layer form a complete set that satisfies Maxwell's equations in the Fourier expansion of exactly the given permittivity and permeability tensors at the given wavelength and wavevector. No propagation constant has a negative imaginary part beyond rounding, undamped propagating modes have positive ones, and the recorded material matrices are those of the given medium.",
["inputs", "configurations"], "every medium class, formulation, tensor-element pattern, lattice, wavevector and expansion within a bounded number of deviations from a default configuration",
"Tests mostly compare formulations with each other or with stored values at a few points; a consistent error in tensor element order, sign or factorisation in a rarely used class goes unnoticed.",
["fmm.py", "fmm_matrices.py", "fft.py", "basis.py"], [("eigensolve", "fmm.py:_numerical_eigensolve"), ("uniform closed form", "fmm.py:_eigensolve_uniform_isotropic_media"), ("factorisation rules", "fmm_matrices.py:transverse_permittivity_vector_anisotropic"), ("branch choice", "fmm.py:_select_eigenvalues_sign")],
["eigenvalues, eigenvectors and matrices of the layer solution"])

add("C06", "Equivalent descriptions of the same medium give the same physics",
"Describing the same physical layer in different admissible ways (uniform or constant-patterned arrays, isotropic or anisotropic or magnetic interface, any formulation for a constant medium, a user-supplied tangent field of any overall size and phase, one period or several periods of the pattern in the array sampling, split into thinner layers, with extra zero-thickness layers) changes neither the propagation constants nor the response of a stack containing it. Interpolating between two materials returns the materials themselves at the end points and never leaves passive media.",
["inputs", "configurations"], "all pairs of descriptions of each medium of a small alphabet, in every position of short stacks",
"Tests compare a few pairs of descriptions for isolated media values, not every pair in every position of a stack.",
["fmm.py", "fmm_matrices.py", "utils.py", "scattering.py"], [("dispatch on array shape", "fmm.py:eigensolve_isotropic_media"), ("general media", "fmm.py:eigensolve_general_anisotropic_media"), ("material interpolation", "utils.py:interpolate_permittivity")],
["propagation constants; stack response"])

add("C07", "Batched computation equals the element-by-element computation",
"Any quantity that accepts leading batch dimensions (wavelengths, wavevectors, lattice vectors, permittivities, amplitudes, sources, layers with different but compatible batch shapes) returns, for every batch element, exactly the result of the corresponding unbatched computation. This holds for every combination of batched and unbatched arguments and any compatible batch shapes, including size-one dimensions.",
["configurations", "inputs"], "all combinations of batch shapes from a small alphabet over the arguments of every batch-capable entry point",
"Tests fix one or two batch shapes per function and mostly check shapes, not values; lattice-vector batches and mixed batched/unbatched stacks are barely covered.",
["fmm.py", "basis.py", "scattering.py", "fields.py", "sources.py", "vector.py", "utils.py"], [("broadcasting of arguments", "fmm.py:_validate_and_broadcast"), ("wavevector broadcasting", "basis.py:transverse_wavevectors"), ("reciprocal vectors", "basis.py:reciprocal"), ("batch helpers", "utils.py:diag"), ("vector field batching", "vector.py:_compute_tangent_field_no_batch")],
["every array returned, element by element"])

add("C08", "Compilation, tracing and container round trips do not change results",
"Running any entry point whose result shape is independent of array values under just-in-time compilation, vectorising transformation or after flattening and rebuilding its containers gives the same result as calling it directly, for every call history. Two expansions, formulations or parameter sets that differ are never treated as interchangeable by a compiled function, and equal ones have equal tree structures and, where hashable, equal hashes.",
["histories", "configurations"], "all call sequences up to a depth over a set of near-identical static arguments, for the compiled entry points; all containers",
"Tests compile each function once with one set of static arguments; confusion between static arguments needs two calls that share a compilation cache.",
["basis.py", "fmm.py", "scattering.py", "pml.py", "vector.py"], [("static aux data", "basis.py:_HashableArray"), ("container registration", "fmm.py:LayerSolveResult"), ("S-matrix container", "scattering.py:ScatteringMatrix"), ("PML parameters container", "pml.py:PMLParams")],
["values returned by compiled and uncompiled calls; equality of rebuilt containers"])

add("C09", "Fourier expansions are symmetric, complete, sorted and near the requested size",
"For every lattice, requested size and truncation the generated expansion starts with the zeroth order, contains no duplicates, contains the negative of each of its orders, lists orders by non-decreasing wavevector magnitude, and has a size close to the request. A circular truncation contains exactly the orders whose reciprocal vector lies inside its circle and a parallelogram truncation is a full centred parallelogram with nearly equal sides in reciprocal space. Reciprocal vectors are dual to the lattice vectors, and the wavevectors of the orders are the in-plane wavevector plus integer combinations of them.",
["inputs", "configurations"], "every lattice of a grid of aspect ratios, angles, orientations and scales, every requested size up to a bound, both truncations",
"Tests use three or four nearly square lattices and a few sizes; elongated and strongly skewed lattices and odd or tiny sizes are not covered.",
["basis.py"], [("circular truncation", "basis.py:_basis_coefficients_circular"), ("parallelogram truncation", "basis.py:_basis_coefficients_parallelogramic"), ("reciprocal vectors", "basis.py:reciprocal"), ("order wavevectors", "basis.py:transverse_wavevectors")],
["the coefficients of the expansion, the reciprocal vectors and wavevectors"])

add("C10", "Fourier transforms agree with the defining sums on any axes",
"The forward transform, inverse transform and convolution matrix equal the defining Fourier sums for the orders of the expansion, for any array content, array shape, axis position and batch shape: transforming back and forth is the identity on expanded fields, and the convolution matrix applied to a field's coefficients gives the truncated coefficients of the product. Arrays too small to resolve the expansion are rejected, and every array large enough is accepted.",
["inputs", "configurations"], "every unit-impulse and unit-order input (a basis of the whole input space) for every small array shape, axis position and expansion of a bounded family",
"Tests use a few random arrays of one or two shapes; linearity makes the basis enumeration here complete per shape.",
["fft.py", "utils.py"], [("forward transform", "fft.py:fft"), ("inverse transform", "fft.py:ifft"), ("convolution matrix", "fft.py:fourier_convolution_matrix"), ("size requirement", "fft.py:min_array_shape_for_expansion")],
["transform outputs; acceptance or rejection of shapes"])

add("C11", "Results do not depend on the coordinate frame, unit of length or cell choice",
"Rotating the whole configuration rotates the fields and leaves propagation constants and powers unchanged; scaling all lengths together leaves the dimensionless response unchanged; translating the pattern inside the cell only shifts phases; mirroring mirrors the response. For the formulations that generate a vector field this is required of rotations, scalings, permutations and translations by multiples of their optimisation grid, since their field is only approximately symmetric otherwise. Exchanging or negating the lattice vectors, shifting the in-plane wavevector by a reciprocal lattice vector together with the orders, or permuting the expansion's orders relabels results and changes nothing else.",
["configurations", "inputs"], "every element of a finite set of rotations, scalings, translations, mirror operations and cell re-choices applied to every configuration within a bounded number of deviations from a default",
"Tests check a few rotations by 90 degrees of one structure; combinations with anisotropy, oblique lattices and vector formulations are not covered.",
["fmm.py", "fmm_matrices.py", "basis.py", "vector.py", "fields.py"], [("wavevector assembly", "basis.py:transverse_wavevectors"), ("operators", "fmm_matrices.py:script_k_matrix_patterned"), ("field evaluation", "fields.py:fields_on_coordinates")],
["propagation constants, stack response and fields in both frames"])

add("C12", "Amplitudes recovered from fields regenerate exactly those fields",
"For any forward and backward amplitudes in any layer with linearly independent modes, evaluating their transverse fields on a grid and converting the fields back returns the same amplitudes; for fields given over a supercell with a grid of Bloch wavevectors, each wavevector receives exactly its own component, so that averaging the fields of all wavevectors regenerates the field over the supercell. Field arrays that do not divide evenly into the wavevector grid, or have inconsistent shapes, are rejected.",
["inputs", "configurations"], "every amplitude basis vector of every medium class, grid shape, Bloch wavevector grid and batch-axis position of a bounded family",
"Tests use one or two layers and one wavevector grid with one axis placement.",
["sources.py", "fields.py", "basis.py"], [("field to amplitude conversion", "sources.py:amplitudes_for_fields"), ("mode matrix", "fields.py:field_conversion_matrix"), ("unit cell coordinates", "basis.py:unit_cell_coordinates")],
["recovered amplitudes; regenerated fields"])

add("C13", "Fields of embedded current sources satisfy jump and radiation conditions",
"For any in-plane or out-of-plane current sheet at any interface position of any stack, the computed amplitudes give fields whose jump across the source plane is exactly that imposed by the current, with no forward wave entering the first layer's outer face and no backward wave entering the last. The response is linear in the source and moves with its location; between uniform or absorbing outer layers it obeys reciprocity between two sources. Localised sources have the Fourier coefficients of the profile they name.",
["inputs", "configurations"], "every Fourier basis current in each direction, every source position in all short stacks over a small alphabet, and all pairs of sources",
"Tests check shapes and one reference value; no test evaluates the jump conditions or reciprocity.",
["sources.py", "fields.py"], [("source amplitudes", "sources.py:amplitudes_for_source"), ("emission matrix", "sources.py:emission_matrix"), ("polarisation terms", "sources.py:polarization_terms"), ("profiles", "sources.py:gaussian_source"), ("interior amplitudes with source", "fields.py:stack_amplitudes_interior_with_source")],
["amplitudes returned, fields on both sides of the source plane"])

add("C14", "Brillouin-zone sampling is a uniform folding of the supercell problem",
"The sampled in-plane wavevectors form a uniform grid, of the requested shape, of voxel centres tiling the first Brillouin zone, for any lattice. A supercell made of repeated unit cells has exactly the union of the unit cell's modes over the wavevectors of the sampling, and the same response, when solved with the corresponding orders. Invalid grid shapes are rejected.",
["inputs", "configurations"], "every grid shape up to a bound, every lattice of a small family, all supercells up to a size and media of a small alphabet",
"Tests check values for one lattice and one or two grids; supercell equivalence is tested for one structure only.",
["basis.py", "fmm.py"], [("sampling", "basis.py:brillouin_zone_in_plane_wavevector"), ("orders", "basis.py:transverse_wavevectors"), ("eigensolve", "fmm.py:_numerical_eigensolve")],
["sampled wavevectors; propagation constants and response of supercells"])

add("C15", "Farfield maps place every order correctly and account for all flux",
"Rearranging per-wavevector, per-order data into a farfield map puts each value at the position of its wavevector, exactly once, with every other position marked missing, for any batch layout and position of the wavevector axes. The angles are those of the wavevectors, the solid angles of interior cells are those spanned by neighbouring wavevectors, the integral of the profile over solid angle returns the flux, and integrated flux is linear, additive over disjoint angular regions, and totals the input when everything is selected.",
["inputs", "configurations"], "every axis placement, grid shape, expansion and batch layout of a bounded family, with labelled data; all subsets of a partition of angles",
"Tests use one layout and stored values.",
["farfield.py"], [("rearrangement", "farfield.py:unflatten"), ("flux layout", "farfield.py:unflatten_flux"), ("angles", "farfield.py:angles_from_unflattened_transverse_wavevectors"), ("integration", "farfield.py:integrated_flux")],
["maps, angles, solid angles and integrals returned"])

add("C16", "Tangent vector fields are tangential, bounded, finite and scale free",
"For every permittivity pattern and every scheme the generated vector field is finite and, for patterns of constant complex phase, has magnitude at most one, with largest magnitude one (exactly one everywhere for the Jones schemes). It is parallel to the interfaces of any one-dimensional pattern whatever its orientation (exactly along cell axes and diagonals, otherwise up to discretisation), and constant for a uniform pattern. It is unchanged when the pattern is offset or multiplied by a constant (down to small contrasts), or when all lengths are scaled; a repeated cell gets the repeated field.",
["inputs", "configurations"], "all binary patterns up to symmetry on tiny grids, all orientations of one-dimensional patterns, every scheme, several lattices and transformations",
"Tests check fields of circles and of gratings along x and y only.",
["vector.py"], [("optimisation of the field", "vector.py:compute_tangent_field"), ("one-dimensional shortcut", "vector.py:_compute_tangent_field_no_batch"), ("Jones conversion", "vector.py:normalize_jones")],
["tangent vector field components"])

add("C17", "Absorbing boundary media are confined, impedance matched and well formed",
"Adding absorbing boundaries leaves the interior of the cell unchanged, extends the material at the inner edge of the boundary outward, and yields permittivity and permeability tensors that share the same diagonal stretching factors with product relations that make the boundary reflectionless, are mirror symmetric, absorb rather than amplify, and grow monotonically outward following the profile named by the strength, exponent and conductivity parameters. Zero width in a direction means no absorption in that direction; widths that leave no interior are rejected.",
["inputs", "configurations"], "every array shape, width pair, parameter combination and batch layout up to a bound with labelled permittivity",
"Tests check one or two shapes and parameter sets.",
["pml.py"], [("tensor assembly", "pml.py:apply_uniaxial_pml"), ("edge extension", "pml.py:_crop_and_edge_pad_pml_region"), ("depth profile", "pml.py:_normalized_distance_into_pml")],
["tensor component arrays"])

add("C18", "Rotated and shifted beams are rigid motions of the original beam",
"For all angles and origins, the rotated beam's field at a point is the original field evaluated at the point moved back by the rigid motion, with its vectors rotated by the same proper rotation: the axis points along the requested polar and azimuthal direction, the polarisation turns about that axis by the requested angle, and the origin maps to the requested origin. Rotations are orthogonal with unit determinant, and zero angles and origin change nothing.",
["inputs", "configurations"], "every combination of angles on a grid that includes all quadrant boundaries, origins and evaluation points in several array shapes",
"Tests check a few fixed angle combinations.",
["beams.py"], [("rotation", "beams.py:rotation_matrix"), ("field transport", "beams.py:shifted_rotated_fields")],
["rotation matrices and field arrays"])

add("C19", "Gradients equal finite differences of the same computation",
"For any differentiable input (permittivity, wavelength, wavevector, thickness, lattice) the gradient of a phase-independent real function of eigenvalues, eigenvectors, scattered power or fields agrees with the directional finite difference of that function, also in batches and under compilation. A tangent field generated from the permittivity is treated as constant in the permittivity derivative. At exact degeneracies gradients remain finite (far-field angles outside the light cone excepted).",
["inputs", "configurations"], "every input direction of a basis, for every function of a set of invariants and every matrix or layer configuration of a bounded family, including degenerate ones",
"Tests compare gradients for a few random matrices and one metasurface; not per input kind or medium class.",
["utils.py", "fmm.py", "vector.py"], [("custom derivative of the eigendecomposition", "utils.py:_eig_bwd"), ("safe normalisation", "vector.py:normalize_elementwise")],
["gradient arrays"])

add("C20", "Lower precision or forced precision changes rounding only",
"Running in single precision reproduces the double-precision results to single-precision accuracy for well-conditioned configurations, and requesting high-precision solves never changes results beyond rounding. Real and complex inputs, and arrays or scalars of different but equivalent types, describe the same problem and yield the same results, with no silent loss of an imaginary part; power fluxes are real.",
["configurations", "inputs"], "every combination of input types and precision options over a set of entry points and small configurations",
"Tests run in one precision setting per file with one dtype for each input.",
["scattering.py", "fmm.py", "fields.py", "utils.py", "fft.py"], [("precision-controlled solve", "scattering.py:solve"), ("type promotion", "fmm_matrices.py:script_k_matrix_patterned")],
["results of every dtype and precision variant"])

add("C21", "Calls have no memory: results depend on arguments only",
"Every public computation is a pure function: repeating it, or running it after any other sequence of calls with other arguments, gives the same results up to rounding, leaves its arguments (including arrays, containers and lists supplied by the caller) bit-wise unmodified and changes no process-wide setting.",
["histories"], "all sequences of public calls up to a depth over a menu of calls that share shapes, expansions and caches",
"Each test calls functions in its own fixed order and never inspects its arguments afterwards.",
["fmm.py", "scattering.py", "fields.py", "sources.py", "farfield.py", "vector.py", "basis.py", "fft.py", "pml.py", "beams.py"], [("functional style, no module state", "fmm.py"), ("in-place operators on arguments", "sources.py:amplitudes_for_fields"), ("compiled function caches", "vector.py")],
["outputs and argument contents after each call"])

add("C22", "Malformed requests are rejected instead of producing numbers",
"Arguments whose shapes, lengths, axes or sizes cannot describe a valid problem (in-plane wavevectors, lattice vectors or amplitudes with wrong trailing dimensions, incompatible batch shapes, differing tensor-element shapes, mismatched list lengths, out-of-range or duplicate axes, arrays too small for the expansion, invalid Brillouin-zone grid shapes, inconsistent layer records) raise an error at the call that receives them. Every argument combination that is valid is accepted and returns arrays of the documented shapes.",
["inputs", "configurations"], "every single-argument corruption of every valid call in a menu of entry points, and every shape combination from a small alphabet",
"Tests sample a few invalid shapes for some functions.",
["fmm.py", "basis.py", "fft.py", "fields.py", "sources.py", "scattering.py", "utils.py", "pml.py"], [("shape validation", "fmm.py:_validate_and_broadcast"), ("record validation", "fmm.py:LayerSolveResult"), ("batch compatibility", "utils.py:batch_compatible_shapes"), ("axis validation", "utils.py:absolute_axes")],
["raised errors; shapes of returned arrays"])

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P))

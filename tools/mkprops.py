#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=["src/" + f for f in files],
            state=[dict(name=a, meaning=b, where="src/" + c) for a, b, c in state],
            mechanism=[dict(name=a, where="src/" + b) for a, b in mech], observe_at=observe, hook_needed=hook)))
A, AH = "gsThinShellAssembler.hpp", "gsThinShellAssembler.h"
B, BD = "gsMaterialMatrixBase.h", "gsMaterialMatrixBaseDim.hpp"
L, N, T = "gsMaterialMatrixLinear.hpp", "gsMaterialMatrixNonlinear.hpp", "gsMaterialMatrixTFT.hpp"
E, I = "gsMaterialMatrixEval.hpp", "gsMaterialMatrixIntegrate.hpp"
D, DH = "gsThinShellAssemblerDWR.hpp", "gsThinShellDWRHelper.h"
EX = "The seven stable tests are example programs run once with default arguments and no assertion on the numbers; "

p("P01", "An assembled system depends only on the current problem definition",
  "Whatever sequence of configuration changes and assemblies went before on the same shell assembler (new loads, pressure, foundation, point loads, boundary conditions, geometry, options, copies or moves of the assembler; linear, tangent, residual and mass assemblies in any order), the matrix, right-hand side, mass matrix and status an assembly delivers equal those a freshly built assembler with the same current definition delivers. A definition that was set stays in force until it is changed or withdrawn, and an assembly reports success exactly when it delivered a system.",
  ["histories", "configurations"], "all sequences of public configuration and assembly calls on one assembler object, all problem definitions",
  EX + "each performs one fixed call sequence on one object, so no leftover of an earlier call can show.",
  [A, AH], [("re-initialisation of space, right-hand side and status at each assembly", A), ("copy/move assignment", A), ("rhs() selection between stored and assembled vector", AH)],
  ["matrix(), rhs(), massMatrix(), status(), numDofs() after each assembly call"],
  [("problem definition", "geometry, basis, boundary conditions, loads, options, materials", AH), ("stored right-hand side", "vector returned when point loads were applied", AH)])

p("P02", "Internal forces are the virtual work of the Kirchhoff-Love shell",
  "For every deformed configuration, the right-hand side of a nonlinear assembly, tested with any admissible virtual displacement, equals the external virtual work minus the integral over the undeformed surface of membrane force times membrane-strain variation plus bending moment times bending-strain variation, with force and moment given by the through-thickness stress law of each patch's material. The membrane and plane-stress variants contain exactly the membrane part.",
  ["inputs", "configurations"], "all geometries (planar, curved, multi-patch), deformations, virtual displacements, materials per patch, and the three assembler variants",
  EX + "a wrong factor, sign or missing term in the strain variations converges to a plausible wrong answer.",
  [A, "gsThinShellUtils.h", I], [("residual assembly expressions", A), ("strain, curvature and normal-variation expressions", "gsThinShellUtils.h")],
  ["assembleVector / assemble(deformed) right-hand side contracted with a virtual displacement"])

p("P03", "The tangent stiffness is the exact derivative of the residual",
  "For every deformed configuration, the matrix of a nonlinear assembly is minus the derivative of the right-hand side with respect to the free displacement coefficients (up to the thin-shell assumption of a strain linear over the thickness for laws integrated numerically), including follower pressure and foundation, and is symmetric when the loads are conservative. At zero displacement it equals the linear stiffness matrix, and assembling matrix and vector together or separately, from a solution vector or from the deformed geometry, gives the same system. The tangent of the mixed integration point method, for which a previous state is given as well, takes its material stiffness from the current state and the stress resultants of its geometric part from the previous state, extended linearly along the given update.",
  ["inputs", "configurations"], "all geometries, deformations, materials, load combinations and assembler variants",
  EX + "an inexact tangent only slows Newton's method down and stays invisible in their output.",
  [A, "gsThinShellUtils.h", N, L], [("tangent assembly expressions", A), ("second variations of strain and curvature", "gsThinShellUtils.h")],
  ["matrix() against differences of rhs() for random directions; linear assemble() against assembleMatrix(undeformed)"])

p("P04", "External loads enter with exactly the work they perform",
  "Body force, boundary traction, pressure, elastic foundation and point loads each contribute to the right-hand side exactly the virtual work of that load: distributed loads integrate over the undeformed surface or edge, pressure acts along the current unit normal, a foundation reacts against the current displacement, and a point load acts in full at its stated place given in parametric or physical coordinates. Contributions of several loads add up, and each is present in linear and nonlinear assemblies alike.",
  ["inputs", "configurations"], "all load fields and combinations, load points (including patch boundaries and shared points), geometries, deformations and assembler variants",
  EX + "a load scaled by a wrong measure, dropped in a combination or applied on the wrong patch is not asserted anywhere.",
  [A], [("Neumann, pressure, foundation and point-load assembly", A)],
  ["rhs() contracted with virtual displacements, differences between assemblies with and without a load"])

p("P05", "Solution vectors and deformed geometries convert into each other losslessly",
  "The deformed geometry built from a solution vector is the undeformed geometry plus the displacement field of that vector; free coefficients take the vector's entries, prescribed ones take the boundary data, and coupled ones agree, on every patch. Reading the displacement field of a vector back recovers the vector (the full vector additionally lists the prescribed values), boundary conditions are met by every solution so built, and homogenising, assembling or copying in between changes nothing but, for homogenising, making the prescribed values zero.",
  ["inputs", "configurations"], "all solution vectors, boundary-condition sets (fixed, prescribed, collapsed, clamped, corner values), patch layouts, continuity options and variants",
  EX + "they use single or few patches with mostly homogeneous conditions.",
  [A, AH], [("constructSolution / constructDisplacement / constructSolutionVector / fullSolutionVector", A), ("Dirichlet set-up", A)],
  ["control points of constructed geometries; recovered vectors"])

p("P06", "The mass matrix carries exactly the mass of the structure",
  "The assembled mass matrix is symmetric and its quadratic form for any velocity field equals the integral of density times thickness times squared speed over the undeformed surface, with each patch's own density and thickness, plus the kinetic energy of point masses. The lumped variant is diagonal with the row sums of the consistent one, so total mass is the same.",
  ["inputs", "configurations"], "all density and thickness fields, geometries, multi-patch materials, boundary conditions and variants",
  EX + "only one modal example assembles a mass matrix and it asserts nothing.",
  [A, "gsMaterialMatrixIntegrate.hpp", BD], [("assembleMass", A), ("thickness-integrated density", I)],
  ["massMatrix() quadratic forms against integrals"])

p("P07", "Shell response is frame indifferent and independent of parametrisation",
  "Rigidly moving a structure together with its loads rotates forces and leaves stresses, strains, stretches and the tangent's action unchanged, and a rigid motion of the deformed configuration alone causes no strain, stress or internal force. Re-parametrising a patch, swapping or reversing its parameter directions, or splitting it does not change forces, mass, stiffness or physical stresses at the same material point.",
  ["inputs", "configurations"], "all rigid motions, geometries, deformations, materials and affine re-parametrisations",
  EX + "each uses one axis-aligned geometry in one parametrisation.",
  [A, BD, N, L, "gsThinShellFunctions.hpp"], [("metric and basis computation", BD), ("transformations between bases", BD)],
  ["rhs, matrix actions, stresses of a moved or re-parametrised copy of a problem"])

p("P08", "Pointwise stress follows the selected material law under plane stress",
  "At every point and height, the stress a material returns equals twice the derivative, with respect to the in-plane deformation tensor, of the selected strain energy with the thickness stretch eliminated by zero normal stress (compressible) or by volume conservation (incompressible), for the parameters at that point. Every available implementation (analytical, generalised, spectral) of the same law returns the same stress, evaluation from a given deformation tensor agrees with evaluation from geometry, and the undeformed state is stress free.",
  ["inputs", "configurations"], "all finite deformations and heights, material laws and their parameters (constant or varying in space), implementations, and dimension 2 and 3",
  EX + "one deformation path with one parameter set per law cannot reveal errors that need shear, biaxial stretch or varying parameters.",
  [N, L, BD], [("stress formulas per law and implementation", N), ("iteration for the thickness stretch", N), ("linear law", L)],
  ["stress evaluations of material objects"])

p("P09", "The material tangent is the exact derivative of the stress",
  "At every point and height, the elasticity tensor a material returns is the derivative of its stress with respect to the strain along every strain direction, has major and minor symmetry, and in the undeformed state equals the isotropic plane-stress tensor of the material's Young's modulus and Poisson's ratio (equivalent shear modulus for incompressible laws). The derivative of the tensor, where one is returned, is that of the tensor. This holds for every law, implementation and compressibility that is offered.",
  ["inputs", "configurations"], "all finite deformations and heights, laws, parameters, implementations and dimensions",
  EX + "an inexact tangent still converges, only slower.",
  [N, L], [("tangent formulas per law and implementation, static condensation", N)],
  ["material matrix evaluations against the law's derivative"])

p("P10", "Strains, stretches, principal values and true stresses describe one state",
  "All derived quantities of a material point are consistent with its deformation: the strain is half the metric change, the principal stretches, strains and stresses are the eigenvalues of the corresponding tensors with orthogonal unit directions that diagonalise them, the thickness stretch satisfies volume conservation or zero normal stress, the volume ratio is the product of the stretches, true stress is the pulled stress divided by that ratio, and the transformations offered between bases take the components of a tensor on the one basis to those on the other. Each point of a batch gets its own values, whatever the other points are.",
  ["inputs", "configurations"], "all deformations including rigid, traceless and nearly undeformed ones, all heights, laws and batches of points",
  EX + "none evaluates derived quantities at several points or asserts them.",
  [BD, N, L], [("principal stretch, stress and strain evaluation", BD), ("true stress and volume ratio", N)],
  ["strain, stretch, stretch direction, principal stress/strain, true stress, volume ratio evaluations"])

p("P11", "Resultants and stiffnesses are the thickness integrals of the material law",
  "The membrane force, bending moment and the A, B, C, D stiffnesses handed to the assembly equal the zeroth, first and second thickness moments of the pointwise stress and tangent over the local thickness, at every point of every patch, for laws integrated analytically, numerically or not at all, with the number of integration points requested. Generalised stress outputs and principal-force outputs follow from the same integrals.",
  ["inputs", "configurations"], "all laws, thickness fields, integration-point counts, patches and outputs",
  EX + "they use constant thickness and one quadrature setting.",
  [I, E, L, T, "gsMaterialMatrixComposite.hpp"], [("integrateZ / multiplyZ selection", I), ("Gauss rule through the thickness", I)],
  ["gsMaterialMatrixIntegrate outputs against pointwise evaluations"])

p("P12", "Material evaluation is independent of batching, order, history and neighbours",
  "Evaluating a set of points in one call, in several calls, in another order, after other evaluations, on another object of the same definition, on a copy, or through the evaluator objects gives the same values for each point. In a multi-patch container each patch is answered by its own material, parameters are read at the physical location of that patch, and a changed parameter, thickness or deformed configuration takes effect at the next evaluation.",
  ["histories", "inputs", "configurations"], "all sequences of evaluation and reconfiguration calls on material objects, all batches and patches",
  EX + "they never compare two ways of asking for the same value.",
  [B, BD, E, I, "gsMaterialMatrixContainer.hpp", N, L, T], [("per-thread evaluation data filled by each call", BD), ("column order of point/height results", N), ("container lookup", "gsMaterialMatrixContainer.hpp")],
  ["evaluation results of permuted, split and repeated requests"],
  [("evaluation data", "metrics and parameter values of the last call", "gsMaterialMatrixBaseDim.h")])

p("P13", "The tension-field model classifies states correctly and removes compression",
  "A point is reported taut, wrinkled or slack exactly according to the selected criterion on its principal stresses and strains. In a taut state the tension-field material returns the base material's stress, tangent and resultants. In a wrinkled state its stress is the base stress relaxed by a wrinkle strain (to first order in that strain) and is uniaxial: no principal stress across the wrinkles, no shear against the wrinkle direction, and, for the linear law, no compression; the tangent is the derivative of that relaxed stress with respect to the strain. In a slack state stress and tangent vanish up to the chosen slack stiffness. The answers belong to the geometry, points and heights asked for, whatever was asked before.",
  ["inputs", "configurations"], "all in-plane states on both sides of each threshold, base laws, criteria and options",
  EX + "one wrinkling example with a fixed sheet and no assertions.",
  [T, BD], [("tension field classification", BD), ("wrinkling strain solver and modified law", T)],
  ["tension-field indicator, stress and tangent of the wrapped material"])

p("P14", "Factory and file input/output give the requested material or refuse",
  "A material requested by law, compressibility and implementation is one that reports and behaves as that law with exactly the given thickness, density and parameters; combinations that are not offered are refused with an error instead of yielding another law. Writing a material (with or without tension-field wrapper) to a file and reading it back, or reading a material or a material container from a file, gives the object the file describes: same law, parameters, thickness, density, per-patch assignment and evaluation results. What has no file representation is refused, never replaced by another material.",
  ["inputs", "configurations"], "all law/compressibility/implementation/dimension combinations, parameter lists and container layouts",
  EX + "they construct a few fixed materials and read one file.",
  ["getMaterialMatrix.h", "gsMaterialMatrixXml.hpp", "gsMaterialMatrixContainer.hpp", B], [("option decoding", "getMaterialMatrix.h"), ("XML traits", "gsMaterialMatrixXml.hpp")],
  ["objects returned by the factory and by file reading; raised errors"])

p("P15", "Laminates respond as the stack of their plies",
  "The stiffness and resultants of a laminate equal the sum over its plies of the rotated ply stiffness times the ply's zeroth, first and second thickness moments about the mid-surface; symmetric stacks have no membrane-bending coupling, stacking order and angle enter only that way, and a laminate of isotropic plies equals the single isotropic layer of the same total thickness. The thicknesses reported are those of the plies in stacking order (first ply on the side the normal points to), and the density is the mass per area of the stack.",
  ["inputs", "configurations"], "all ply counts, stacking orders, angles, thicknesses, orthotropic constants and geometries",
  EX + "one laminate example without assertions.",
  ["gsMaterialMatrixComposite.hpp", "gsMaterialMatrixComposite.h", I], [("ply rotation and accumulation", "gsMaterialMatrixComposite.hpp")],
  ["composite material matrices, vectors, thickness and density"])

p("P16", "Goal-oriented error estimates are consistent with goals and residuals",
  "For a surface in space and every goal functional (displacement; squared principal stretches; principal membrane strains and stresses; membrane and flexural strain, stress and resultants; one component or the squared norm; over the domain, along edges or in points), the goal value is the stated integral or sum, and the dual right-hand side is the derivative of that value in the direction of each basis function at the given deformation. Primal operators, mass (also lumped) and loads of the low- and high-order space are those of a shell assembler on that space, and the two spaces are never mixed up. The error estimate is the residual of body force, edge and point loads and internal forces tested with the difference of the duals; eigenvalue estimates and norms are those of the stated matrices. Elementwise contributions belong to their element and add up to the total. Asking never changes later answers.",
  ["inputs", "configurations"], "all goal functionals and components, evaluation on interior, boundary or points, deformations, and estimator modes",
  "No stable test calls the goal-oriented assembler at all.",
  [D, DH], [("goal functional expressions and their variations", D), ("error estimators", D)],
  ["dual vectors against differences of computed goals; error estimates against assembled residuals"])

p("P17", "Stress fields report the stress of the state and patch they were asked for",
  "A stress, strain, force or moment field of a surface in space, constructed for an undeformed and a deformed geometry, evaluates, at any point of any patch, to the same values the material of that patch gives there, in the stated component order, frame and thickness position. Principal values are ordered consistently and their directions are unit vectors that diagonalise the field.",
  ["inputs", "configurations"], "all field types, patches, points, materials per patch and deformations",
  EX + "stress output is only written for plotting.",
  ["gsThinShellFunctions.hpp", "gsThinShellFunctions.h", A], [("field evaluation by type", "gsThinShellFunctions.hpp"), ("constructStress", A)],
  ["piecewise stress functions against material evaluations"])

p("P18", "Weak supports and weak patch coupling act as the penalty energy they stand for",
  "Weakly imposed displacement and rotation conditions on edges, and weak displacement and rotation coupling of patches, contribute the gradient and Hessian of a non-negative penalty energy: no contribution when the condition is met, restoring forces proportional to the mismatch and the penalty otherwise, equal and opposite on both sides of an interface. Each interface is coupled exactly as assigned (strong, weak C0, weak C1, uncoupled or default), once.",
  ["inputs", "configurations"], "all penalty values, edges and interfaces, orientations, mismatches and assignments",
  EX + "weak coupling runs once on a compatible configuration with default penalties.",
  [A], [("weak boundary and interface assembly", A), ("interface containers", A)],
  ["matrix and rhs with and without weak terms"])

p("P19", "Scalar and boundary post-processing report the exact measures of the state",
  "Area, deformation and displacement norms (over the undeformed surface), elastic energy (half the work of the internal forces), interface gap measures, boundary reaction forces and L2 projections equal the integrals they name for the given configuration; reactions balance the applied loads in equilibrium and interface measures vanish exactly for smooth interfaces. Asking for them does not change the assembler's state.",
  ["inputs", "configurations", "histories"], "all geometries, deformations, boundary sides and functions",
  EX + "none compares these values with anything.",
  [A, AH], [("post-processing integrals", A), ("boundaryForce", A), ("interfaceError*", A)],
  ["return values of post-processing calls"])

p("P20", "A sum of functions stands for the configuration its terms add up to",
  "A sum of function sets (gsFunctionSum: an undeformed surface plus any number of deformations) has the pieces and dimensions of its terms, and its value, first and second derivatives and combined derivatives, at any points of any piece, are the sums of those of all its terms as they are when asked. A copy stands for the same terms and keeps working when the sum it was taken from is gone. Assemblers and material evaluators given a sum as deformed configuration answer as for the single geometry with the same points.",
  ["inputs", "histories"], "all lists of one or more terms (also of different degree), numbers of pieces, points, and orders of making, copying, destroying and changing terms in between",
  "No test uses sums of functions.",
  ["gsFunctionSum.h"], [("gsFunctionSum, gsFunctionPieceSum", "gsFunctionSum.h")],
  ["evaluations of a sum against evaluations of its terms"])

p("P21", "Over a mapped basis the system is that of its pieces seen through the map",
  "When the unknowns of an assembler are the coefficients of given functions that combine the functions of the pieces (setSpaceBasis with a mapped basis: glued, coarser, smooth or any other combinations), its number of unknowns, residuals, tangents, linear systems and mass matrices, including point loads and point masses in parametric or physical places, pressure, foundation and edge loads, are those of the pieces seen through the mapping, with the supported unknowns removed; displacements and deformed geometries constructed from a vector are the fields it describes. The space belongs to the assembler it was set on: copies span the same functions, setting another space replaces it, and the rest of the problem stays as it is.",
  ["inputs", "configurations", "histories"], "all mappings, meshes, supports, loads, deformations, and orders of setting spaces, copying, changing loads and assembling",
  EX + "no test sets a space basis.",
  [A, AH], [("setSpaceBasis", AH), ("_applyLoads, _applyMass, constructMultiPatch", A)],
  ["numDofs, matrix, rhs, mass matrix and constructed fields of an assembler over a mapped basis against those over its pieces"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))

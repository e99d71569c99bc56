"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand when a property is added)."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique):
    P.append(dict(id=id, title=title, statement=statement, over=over.split(), text=text, why=why, files=files.split(),
                  mech=[dict(name=n, where=w) for n, w in mech], technique=technique))


T = 'model checking: explicit enumeration of '

prop('C01', 'Element interpolation and quadrature are exact on every cell',
     'For every supported element type and every admissible orientation and numbering of a cell, the element interpolates at its own nodes, reproduces every polynomial of its space and that polynomial\'s gradient, and its volume and surface quadrature integrate every polynomial of the documented degree exactly. '
     'Volumes and boundary areas of a mesh therefore do not depend on how its cells are rotated or numbered.',
     'configurations inputs', 'all element types, cell orientations, node numberings, cell shapes, polynomials of the space, boundary planes',
     'The tests use one HEX8 numbering on boxes and a cylinder; no other element type, orientation or surface rule is ever evaluated.',
     'jax_am/fem/basis.py jax_am/fem/core.py',
     [('get_shape_vals_and_grads / get_face_shape_vals_and_grads', 'jax_am/fem/basis.py'), ('get_shape_grads, get_face_shape_grads', 'jax_am/fem/core.py')],
     T + 'element type x orientation x numbering x monomial, real code against an independent polynomial model')
prop('C02', 'Boundary conditions act on exactly the nodes and faces the user selects',
     'A prescribed value acts on exactly the nodes whose position satisfies the given predicate, with the value function evaluated at that node and on the given component. '
     'A surface term acts on exactly the cell faces all of whose nodes satisfy the predicate, each such face once per cell; conditions given in one list do not influence one another.',
     'inputs configurations', 'all predicates (every subset of nodes), all lists of conditions, all element types',
     'Tests select whole planes of one mesh with one predicate form; partially selected faces, empty selections and lists are never reached.',
     'jax_am/fem/core.py',
     [('Dirichlet_boundary_conditions', 'jax_am/fem/core.py'), ('get_boundary_conditions_inds', 'jax_am/fem/core.py')],
     T + 'all node subsets as predicates x condition kinds, real code against a set model')
prop('C03', 'The residual is the discrete weak form for every combination of terms',
     'For every problem assembled from flux, volume, surface and source terms, with or without internal variables, on every mesh size, the residual at any field equals the sum over cells and faces of the quadrature of those terms. '
     'Terms that are not given contribute nothing and the order in which cells are processed in batches has no influence.',
     'configurations inputs', 'all combinations of terms, element types, components, cell counts and fields',
     'The four test problems use one flux law each on one mesh; nonlinear surface terms, volume laws, sources, other element types and other batch remainders are not exercised.',
     'jax_am/fem/core.py',
     [('split_and_compute_cell', 'jax_am/fem/core.py'), ('compute_face', 'jax_am/fem/core.py'), ('compute_Neumann_integral_vars / compute_body_force', 'jax_am/fem/core.py')],
     T + 'term combinations x element types x all cell counts, real residual against a plain-loop weak form model')
prop('C04', 'The assembled tangent is the derivative of the residual',
     'At every field, the sparse matrix used by the Newton iteration equals the derivative of the discrete residual entry by entry, for every combination of terms, element type and mesh size. '
     'Assembling it also returns the same residual as a pure residual evaluation.',
     'configurations inputs', 'all combinations of terms, element types, components, cell counts and fields',
     'A wrong tangent entry only slows Newton down on the tested problems; tests compare final solutions on one element type.',
     'jax_am/fem/core.py jax_am/fem/solver.py',
     [('newton_update / compute_residual_vars_helper', 'jax_am/fem/core.py'), ('index arrays I, J, V', 'jax_am/fem/core.py')],
     T + 'term combinations x element types x all cell counts, entry by entry against complex-step derivatives of the weak form model')
prop('C05', 'The nonlinear solver returns the constrained equilibrium',
     'When the solver returns a solution, prescribed components have exactly their prescribed values and every other component is in equilibrium, independent of the linear solver backend, preconditioner, linear shortcut, and initial guess. '
     'A non finite load or prescribed value is reported as an error and never returned as a solution.',
     'configurations inputs', 'all lists of boundary conditions (overlapping and conflicting ones), backends, preconditioners, paths and initial guesses, all places of a non finite load',
     'Tests solve one set of conditions per problem with one backend.',
     'jax_am/fem/solver.py jax_am/fem/core.py',
     [('solver, linear_incremental_solver, linear_full_solve', 'jax_am/fem/solver.py'), ('petsc_solve, jax_solve', 'jax_am/fem/solver.py'), ('apply_bc, assign_bc, copy_bc, row elimination', 'jax_am/fem/solver.py')],
     T + 'boundary condition lists x backends x paths x starts, real solves against a dense constrained model')
prop('C06', 'Periodic boundary conditions tie exactly the paired nodes',
     'With periodic conditions, each selected node has the same value of the selected component as the node its location is mapped to, and the rest of the system is in equilibrium with the tying forces acting on both nodes of a pair. '
     'This holds for every backend, node numbering and combination with prescribed values.',
     'configurations inputs', 'all periodic axes, component sets, directions of the mapping, Dirichlet combinations, numberings and backends',
     'No test uses periodic conditions.',
     'jax_am/fem/core.py jax_am/fem/solver.py',
     [('periodic_boundary_conditions', 'jax_am/fem/core.py'), ('linear_incremental_solver / get_A_fn_and_res_aug', 'jax_am/fem/solver.py')],
     T + 'periodic configurations x backends, real solves against a dense constrained model')
prop('C07', 'A problem depends on its current settings only, not on its history',
     'After any sequence of changing prescribed values, changing parameters (material constants and fields, prescribed values, surface and body loads), assembling and solving on one problem, its residual, tangent and solution equal those of a fresh problem given the final settings. '
     'Evaluations and solves leave the settings untouched.',
     'histories', 'all operation sequences up to the bound',
     'Tests perform at most one fixed sequence of updates.',
     'jax_am/fem/core.py jax_am/fem/solver.py',
     [('update_Dirichlet_boundary_conditions', 'jax_am/fem/core.py'), ('set_params, internal_vars', 'jax_am/fem/core.py')],
     T + 'all operation sequences of bounded length on real objects, against a fresh-object oracle')
prop('C08', 'Plasticity follows the return map along every load history',
     'Along every loading history the stress follows the elastic perfectly plastic J2 return map: it starts from the last committed stress and strain, is elastic inside the yield surface, never exceeds it, and its pressure is elastic. '
     'Only an explicit commit moves the history on; trial evaluations never do. The derivative of the stress is exact in forward and reverse mode, also where there is no stress.',
     'histories inputs', 'all sequences of commits, trial evaluations and solves up to the bound',
     'The test follows a single loading-unloading path.',
     'jax_am/fem/models.py jax_am/fem/core.py',
     [('Plasticity.get_maps, update_stress_strain', 'jax_am/fem/models.py')],
     T + 'all load histories of bounded length on the real model, against a return-map state machine')
prop('C09', 'Material laws and post-processing quantities are correct',
     'The elastic laws return the stress of their stored energy for every displacement gradient, independent of the observer for the finite strain law. '
     'Reported force on a surface (per unit normal in z), surface area, averages and error norms are the integrals they are named after, on every side of every element type.',
     'inputs configurations', 'lattice of displacement gradients, all sides, all element types',
     'Tests check a few scalar outputs of one mesh.',
     'jax_am/fem/models.py jax_am/fem/core.py',
     [('LinearElasticity, HyperElasticity', 'jax_am/fem/models.py'), ('sol_to_grad, surface_integral, compute_L2 / H1', 'jax_am/fem/core.py')],
     T + 'a complete strain lattice and all sides / element types, real code against closed-form stress and integrals')
prop('C10', 'Sensitivities equal the derivative of the constrained equilibrium',
     'Forward, reverse and second order derivatives returned by the differentiable solves equal the derivatives of the constrained equilibrium solution with respect to every parameter (material constants and fields, prescribed values, surface and body loads), for every backend and for symmetric and unsymmetric problems. '
     'They are taken at the parameters of the call even if the same problem is used with several parameter values.',
     'configurations histories inputs', 'all wrappers, backends, problem kinds, Dirichlet patterns, parameter trees and parameter histories',
     'The single derivative test compares two products with finite differences and fails at baseline.',
     'jax_am/fem/solver.py jax_am/fem/autodiff_utils.py',
     [('ad_wrapper, implicit_vjp', 'jax_am/fem/solver.py'), ('jvp wrapper', 'jax_am/fem/autodiff_utils.py')],
     T + 'wrappers x backends x problems x parameter histories, real derivatives against the implicit function theorem on a dense model')
prop('C11', 'Saved solutions read back, and mismatched data is refused',
     'A saved result read back contains the mesh, the solution and every cell and point field that was passed, up to single precision, replacing an earlier result at the same place and creating missing folders. '
     'Cell or point data whose length does not fit the mesh is refused with an error.',
     'inputs configurations histories', 'all element types, components, field combinations, wrong lengths and earlier files',
     'Tests never read a saved file back.',
     'jax_am/fem/utils.py',
     [('save_sol', 'jax_am/fem/utils.py'), ('modify_vtu_file, read_abaqus_and_write_vtk', 'jax_am/fem/utils.py')],
     T + 'all data shapes x element types x earlier files, round trip of the real files')
prop('C12', 'Generated FEM meshes are valid, conforming and of the requested size',
     'Box and cylinder mesh generators return meshes with positively oriented cells that fill the requested body exactly once, share faces conformingly, and have the requested resolution, for every element type and size.',
     'configurations inputs', 'all resolutions up to the bound, sizes, element types',
     'Tests use one box and one cylinder resolution and check only the final solution.',
     'jax_am/fem/generate_mesh.py',
     [('box_mesh, cylinder_mesh', 'jax_am/fem/generate_mesh.py')],
     T + 'all resolutions / element types, real meshes against topological and volumetric invariants')
exec(open(os.path.join(here, 'tools', 'gen_meta2.py')).read()) if os.path.exists(os.path.join(here, 'tools', 'gen_meta2.py')) else None

with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']),
                                why_tests_cant=p['why'], anchors=dict(files=p['files'], mechanism=p['mech']))) + '\n')
checks, na = [], []
for p in P:
    if os.path.exists(os.path.join(here, 'mc', 'props', p['id'] + '.py')):
        checks.append(dict(property=p['id'], quick_cmd=f"bash run.sh {p['id']} quick", thorough_cmd=f"bash run.sh {p['id']} thorough",
                           technique=p['technique'], level='model_checking',
                           level_note='exhaustive within the bounds written to the evidence file; floating point comparison with stated tolerances'))
    else:
        na.append(dict(property=p['id'], reason='check not built'))
json.dump(dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na), open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'properties', len(checks), 'checks')

#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, text, tests, files, mech, observe,
         technique, note):
    assert len(title) <= 80, title
    P.append(dict(
        id=pid, title=title, statement=statement,
        quantifier={'over': over, 'text': text}, why_tests_cant=tests,
        anchors={'files': files,
                 'mechanism': [{'name': n, 'where': w} for n, w in mech],
                 'observe_at': observe, 'hook_needed': None},
        technique=technique, note=note))


VAR = 'omtools/core/variable.py'
GRP = 'omtools/core/group.py'
GRA = 'omtools/core/graph.py'
EXO = 'omtools/core/explicit_output.py'
IMO = 'omtools/core/implicit_output.py'
IMC = 'omtools/comps/implicit_component.py'
STD = 'omtools/std/'
CMP = 'omtools/comps/'
RUN = ['Problem.get_val after Problem.run_model',
       'Problem.compute_totals in forward and reverse mode']
PT = ('Held on the models and points generated from the seed; nothing is '
      'claimed about shapes of more than 7 axes or about points outside the '
      'domain of a function. Trusts NumPy, OpenMDAO and the reference '
      'definitions in omtv/ops.py.')
REFMON = 'runtime monitor: reference-model oracle over generated executions'

prop('P01', 'Operators compute what they say, with exact derivatives',
     'An expression built with +, -, *, /, ** and negation from variables, '
     'Python and NumPy numbers and arrays of the shape of the variable (on '
     'the right), in either operand order for numbers and with the same '
     'operand used more than once, evaluates to what NumPy computes for the '
     'same formula. The total derivatives of every such output with respect '
     'to every input are the exact ones in forward and in reverse mode.',
     ['programs', 'inputs'],
     'every finite expression over the operators, every shape, every kind of '
     'constant (int, float, NumPy scalar, integer or float array), every '
     'point where the formula is differentiable',
     'The tests evaluate a handful of fixed formulas at one point, mostly '
     'with unit coefficients and without exponent arrays.',
     [VAR, CMP + 'arithmetic_comps/power_combination_comp.py',
      CMP + 'linearcombination_comp.py'],
     [('operator overloads choose one component per operation', VAR),
      ('value and partials of products of powers',
       CMP + 'arithmetic_comps/power_combination_comp.py'),
      ('value and partials of linear combinations',
       CMP + 'linearcombination_comp.py')], RUN, REFMON, PT)

prop('P02', 'Elementwise functions and their derivatives are exact',
     'Each of the trigonometric, hyperbolic, inverse, exponential and '
     'logarithmic functions applied to an expression of any shape gives, '
     'entry by entry, the mathematical function of that entry and keeps the '
     'shape. Total derivatives are exact in both modes at every point of the '
     'domain, large arguments and arguments of either sign included.',
     ['programs', 'inputs'],
     'all 18 functions, every shape, every argument in the domain, alone or '
     'composed with other expressions',
     'The tests use one small array of a few fixed values per function.',
     [STD, CMP], [('one component per function with diagonal partials',
                   CMP + 'sincomp.py and its siblings'),
                  ('one constructor per function', STD + 'sin.py ...')],
     RUN, REFMON, PT)

prop('P03', 'Derivatives of composite models follow the chain rule',
     'For a model that combines any of the supported operations to any '
     'depth, with expressions used several times, total derivatives of every '
     'registered output with respect to every independent variable and input '
     'equal the derivatives of the composed formula, in forward and reverse '
     'mode.',
     ['programs', 'inputs'],
     'every finite composition of the explicit operations, every point where '
     'it is differentiable',
     'Tests check the partials of single operations; compositions that share '
     'subexpressions are hardly covered.',
     [VAR, GRP, STD, CMP],
     [('components built from the expression graph and connected by name',
       GRP), ('partials of every stock component', CMP)],
     RUN, REFMON, PT)

prop('P04', 'Reductions reduce exactly the requested entries',
     'sum, average, smooth max and min, and p-norm over a whole array, along '
     'any axis or set of axes (positive or negative), or across several '
     'operands of equal shape (the same operand possibly repeated) give the '
     'value and the shape NumPy gives for that reduction. Total derivatives '
     'are exact in both modes.',
     ['programs', 'inputs'],
     'every reduction, shape, proper subset of axes, number of operands, '
     'even norm order, and sharpness',
     'The tests use two-dimensional arrays along one axis at one point.',
     [STD + 'sum.py', STD + 'average.py', STD + 'max.py', STD + 'min.py',
      STD + 'pnorm.py', CMP],
     [('single- and multiple-operand sums',
       CMP + 'single_tensor_sum_comp.py, multiple_tensor_sum_comp.py'),
      ('averages', CMP + 'single_tensor_average_comp.py, '
       'multiple_tensor_average_comp.py'),
      ('smooth extrema', CMP + 'axiswise_max_comp.py, '
       'elementwise_max_comp.py, scalar_extremum_comp.py'),
      ('norms', CMP + 'vectorized_pnorm_comp.py, '
       'vectorized_axiswise_pnorm_comp.py')], RUN, REFMON, PT)

prop('P05', 'Vector, matrix and tensor products equal the mathematical ones',
     'dot, inner (with or without axes), outer, cross (along any axis of '
     'length three), matrix-vector and matrix-matrix products and rotation '
     'matrices have the value and shape of their mathematical definition, '
     'for operands of any admissible shapes, also when both operands are the '
     'same expression. Total derivatives are exact in both modes.',
     ['programs', 'inputs'],
     'every product, all compatible operand shapes and axis choices',
     'The tests fix one or two shapes per product.',
     [STD + f for f in ('dot.py', 'inner.py', 'outer.py', 'cross.py',
                        'matvec.py', 'matmat.py', 'rotmat.py')],
     [('one component per product', CMP + 'matmat_comp.py and siblings')],
     RUN, REFMON, PT)

prop('P06', 'Shape operations move entries without changing them',
     'reshape, transpose, reordering of axes and expansion give an array '
     'whose every entry is the corresponding entry of the argument in '
     'row-major order, in the shape requested, for arguments of any shape. '
     'Total derivatives are the corresponding 0/1 matrices in both modes.',
     ['programs', 'inputs'],
     'every argument shape, target shape, axis permutation and expansion '
     'pattern', 'The tests fix a few shapes, mostly with distinct axis '
     'lengths in one order.',
     [STD + f for f in ('reshape.py', 'transpose.py', 'reorder_axes.py',
                        'expand.py')],
     [('index maps', CMP + 'reorder_axes_comp.py, transpose_comp.py, '
       'array_expansion_comp.py, reshape_comp.py')], RUN, REFMON, PT)

prop('P07', 'Einsum follows the summation convention in all its forms',
     'The einsum operation, written with subscripts or with index tuples, '
     'for one or more operands (repeated operands included), equals the '
     'Einstein sum of its operands. The dense and the sparse format of '
     'partial derivatives give the same, exact total derivatives in both '
     'modes.', ['programs', 'inputs', 'configurations'],
     'every number of operands, every labelling without repeated labels in '
     'one operand, every subset and order of output labels, both formats and '
     'both notations', 'The tests use a fixed list of subscripts.',
     [STD + 'einsum.py', STD + 'einsum_new_api.py',
      CMP + 'einsum_comp_dense_derivs.py',
      CMP + 'einsum_comp_sparse_derivs.py', 'omtools/utils/einsum_utils.py'],
     [('translation of notations', 'omtools/utils/einsum_utils.py'),
      ('dense and sparse partials', CMP + 'einsum_comp_dense_derivs.py, '
       'einsum_comp_sparse_derivs.py')], RUN, REFMON, PT)

prop('P08', 'Smooth extrema bound the true extremum at any magnitude',
     'The smooth maximum of n values is never below the true maximum and '
     'exceeds it by at most log(n)/rho, where rho is the sharpness (20 unless '
     'given); the smooth minimum mirrors this. No magnitude, tie or '
     'sharpness makes it overflow or undefined, and its derivatives are '
     'finite, non-negative weights that sum to one over the values it '
     'ranges over.', ['inputs', 'configurations'],
     'every array or list of arrays, magnitudes to 1e8, ties, and any '
     'sharpness', 'The tests compare with the same formula at a handful of '
     'small values.',
     [STD + 'max.py', STD + 'min.py', CMP + 'axiswise_max_comp.py',
      CMP + 'axiswise_min_comp.py', CMP + 'elementwise_max_comp.py',
      CMP + 'elementwise_min_comp.py', CMP + 'scalar_extremum_comp.py'],
     [('shifted log-sum-exp', CMP + 'scalar_extremum_comp.py')], RUN,
     'runtime monitor: invariant checks on outputs and partials of hostile '
     'inputs', 'Bounds are checked up to rounding (1e-12 of the largest '
     'operand plus 1e-9 over the sharpness).')

prop('P09', 'Values are computed before they are used, in one pass',
     'In a model without cycles, however its statements and registrations '
     'are ordered, every component that computes a value runs before every '
     'component that uses it, each component runs once per pass, and one '
     'pass yields the final values (a second pass changes nothing). No '
     'solver is needed and no feedback is introduced.',
     ['programs', 'configurations', 'schedules'],
     'every cycle-free graph of expressions, every order of construction and '
     'registration, both branch-sorting preferences, every order in which '
     'sets of graph nodes may be visited',
     'The tests check the computed order of a few fixed graphs only.',
     [GRP, GRA, VAR],
     [('topological sort of the expression graph', GRA),
      ('removal of indirect dependencies', GRA),
      ('components added in sorted order', GRP)],
     ['component executions in order (event log)',
      'connection graph of the model after setup',
      'values after a second pass'],
     'runtime monitor: online trace checker over component execution events',
     'The event log is judged against the connection graph reported by '
     'OpenMDAO after setup.')

prop('P10', 'Only needed expressions become components, each exactly once',
     'The components of a model are exactly those its registered outputs '
     '(and its subsystems and independent variables) need: expressions that '
     'no registered output depends on create no component and change '
     'nothing. An expression used by several others is evaluated once, and '
     'every registered output is computed by exactly one component.',
     ['programs'], 'every graph of expressions with shared and dead parts',
     'A few tests count components of fixed models; most look at values '
     'only.', [GRP, GRA, VAR],
     [('graph reachable from the registered outputs', VAR),
      ('removal of unused expressions', GRP)],
     ['component executions by kind (event log)',
      'outputs reported by the model'],
     'runtime monitor: conservation and exactly-once checks over execution '
     'events', 'Components are compared by class and multiplicity with those '
     'of the same model without its dead expressions.')

prop('P11', 'The result does not depend on construction or visiting order',
     'Writing independent statements or registrations of a model in another '
     'legal order, or asking for the other sorting of branches, changes '
     'neither the values of its outputs, nor their total derivatives, nor '
     'which components are executed.',
     ['programs', 'schedules', 'configurations'],
     'every legal permutation of the statements and registrations, both '
     'sorting preferences, every visiting order of sets of graph nodes',
     'Each test is written in one order and runs under one hash seed.',
     [GRP, GRA, VAR], [('sorting of expressions', GRA),
                       ('branch sorting by cost', VAR)],
     RUN + ['component executions'],
     'runtime monitor: differential and reference oracles over permuted '
     'programs with injected visiting orders',
     'Visiting order of sets is perturbed through the hash of graph nodes, '
     'outside of the repository.')

prop('P12', 'Indexed reads give the entries NumPy gives',
     'Indexing an input or any expression with integers and slices (with or '
     'without bounds and positive steps, over all axes) gives exactly the '
     'selected entries, keeping an axis of length one for an integer, for '
     'arrays of any shape. Using several overlapping parts of the same '
     'expression in one model is correct, and total derivatives are exact in '
     'both modes.', ['programs', 'inputs'],
     'every shape, every key of integers and slices with positive steps, '
     'every number of reads of one expression',
     'The tests read a few fixed slices.',
     [VAR, CMP + 'decompose_comp.py', 'omtools/utils/slice_to_list.py'],
     [('keys to flat indices', 'omtools/utils/slice_to_list.py'),
      ('one component extracts all parts', CMP + 'decompose_comp.py'),
      ('indexing operator', VAR)], RUN, REFMON, PT)

prop('P13', 'Indexed assignment puts each expression into its entries',
     'Assigning expressions to non-overlapping parts of a created output, '
     'in any order, with integers or slices (with or without bounds and '
     'positive steps), gives an output whose every assigned entry is the '
     'corresponding entry of the assigned expression. Total derivatives of '
     'the output are exact in both modes, and the assigned expressions stay '
     'usable elsewhere.', ['programs', 'inputs'],
     'every output shape, partition along an axis into blocks or strides, '
     'order of assignment, and key spelling',
     'The tests assign scalars or contiguous blocks in order.',
     [EXO, CMP + 'indexed_pass_through_comp.py',
      'omtools/utils/slice_to_list.py'],
     [('assignment operator of created outputs', EXO),
      ('one component concatenates the parts',
       CMP + 'indexed_pass_through_comp.py')], RUN, REFMON, PT)

prop('P14', 'Subsystems run after what they read and before their readers',
     'When subsystems are added between expressions, everything registered '
     'before a subsystem was added runs before it, everything that reads a '
     'value it computes runs after it, and all values meet by name. One pass '
     'over the whole model gives the final values, with every component run '
     'once, at any nesting.',
     ['programs', 'configurations', 'schedules'],
     'every tree of subsystems and every distribution of a model over it',
     'The tests have two or three fixed models with subsystems.',
     [GRP, 'omtools/core/subsystem.py', GRA],
     [('dependencies between subsystems and registered outputs', GRP),
      ('topological sort', GRA)],
     ['component executions in order (event log)',
      'connection graph of the model after setup'],
     'runtime monitor: online trace checker over component execution events',
     'The event log is judged against the connection graph reported by '
     'OpenMDAO after setup.')

prop('P15', 'Splitting a model into subsystems does not change its results',
     'A model distributed over nested subsystems that exchange values by '
     'name (subclasses, groups opened in a with-block, groups populated '
     'before or after being added, plain OpenMDAO groups) computes the same '
     'values and total derivatives as the flat model.',
     ['programs', 'configurations', 'inputs'],
     'every model, every tree of subsystems over it, every kind of subsystem',
     'The tests have two or three fixed models with subsystems.',
     [GRP, 'omtools/core/subsystem.py'],
     [('subsystem nodes and groups opened in a with-block', GRP)],
     RUN, REFMON, PT)

prop('P16', 'Independent variables come first, hold their value, are flagged',
     'Every created independent variable, used or not and wherever it is '
     'created in the model, exists once in the model, is placed before every '
     'component of its group that is not an independent variable, and has '
     'the declared value until it is set. Exactly those flagged as design '
     'variables are reported as design variables.',
     ['programs', 'configurations'],
     'every model with independent variables created at any place, scalar '
     'or array values, with subsystems or without',
     'The tests check the place of the variables in one fixed model.',
     [GRP, 'omtools/core/indep.py', 'omtools/utils/get_shape_val.py'],
     [('independent variables made dependencies of all other nodes', GRP),
      ('independent variable components', 'omtools/core/indep.py')],
     ['component executions in order', 'Problem.get_val before running',
      'design variables of the model'],
     'runtime monitor: trace and state checks after setup and execution',
     'Held on the generated models.')

prop('P17', 'Declared values of inputs hold until they are connected',
     'An input that is connected to nothing has the declared value (an array '
     'or one number for all entries) in every expression that uses it, '
     'whatever operations those are. An input connected by promotion or '
     'explicitly takes the value of its source instead, in every expression '
     'that uses it.', ['programs', 'configurations', 'inputs'],
     'every model, every value of its inputs, every subset of inputs '
     'connected', 'Hardly any test leaves inputs with array values '
     'unconnected, and each through one operation.',
     ['omtools/core/input.py', 'omtools/utils/get_shape_val.py', STD, CMP],
     [('declared values passed to the inputs of components', STD),
      ('shapes and values of inputs', 'omtools/utils/get_shape_val.py')],
     ['Problem.get_val after running without setting inputs'],
     REFMON, PT)

prop('P18', 'Implicit outputs satisfy their residuals after a solve',
     'After a converged solve the values of implicit outputs, scalar or '
     'array, one or several coupled ones, make every residual expression '
     'zero. The residuals reported at any state are the values of the '
     'residual expressions there, the solve starts from the declared values '
     'and ends where Newton iteration on those expressions from there ends, '
     'whichever linear solver is used.',
     ['programs', 'inputs', 'configurations'],
     'every well-conditioned system of residual expressions, alone or in '
     'subsystems, every start Newton converges from, direct, iterative and '
     'default linear solvers',
     'The tests solve one quadratic from a few starting values.',
     [IMC, IMO, GRP],
     [('inner problem that evaluates residuals', IMC),
      ('linearization and linear solves', IMC),
      ('definition of implicit outputs', IMO)],
     ['Problem.get_val after solving', 'residuals of the model at arbitrary '
      'states', 'values before solving'],
     'runtime monitor: residual and reference-solver oracles over generated '
     'solves', 'Only systems on which a reference Newton iteration converges '
     'in few, well-conditioned steps are judged.')

prop('P19', 'Derivatives through implicit outputs are those of their residuals',
     'Total derivatives of implicit outputs, and of everything computed from '
     'them, with respect to anything the residuals depend on equal those of '
     'the implicit function theorem applied to the residual expressions, in '
     'forward and in reverse mode, at every converged point and for every '
     'linear solver.', ['programs', 'inputs', 'configurations'],
     'every well-conditioned system of residual expressions between upstream '
     'and downstream expressions, successive points, direct, iterative and '
     'default linear solvers',
     'The tests check the partials of one scalar quadratic.',
     [IMC, IMO],
     [('totals of the inner problem as partials', IMC),
      ('linear solves in both modes', IMC)], RUN,
     'runtime monitor: implicit-function-theorem oracle over generated '
     'solves', 'As P18; derivatives compared to 1e-6 relative.')

prop('P20', 'Bracketed implicit outputs are roots inside their brackets',
     'With brackets given for implicit outputs (numbers, lists or arrays, in '
     'either order) over which each residual entry changes sign, every entry '
     'of the solution lies in its bracket and the residual changes sign '
     'there within the accuracy that bisection with the given number of '
     'iterations guarantees. Derivatives there are those of the implicit '
     'function theorem.', ['programs', 'inputs', 'configurations'],
     'every continuous residual, increasing, decreasing or not monotone '
     'entry by entry, every bracket with a sign change, any iteration limit',
     'The tests bracket one scalar quadratic.', [IMC, IMO],
     [('bisection between brackets', IMC),
      ('brackets declared with implicit outputs', IMO)],
     ['Problem.get_val after solving', 'Problem.compute_totals'],
     'runtime monitor: sign-change oracle over generated solves',
     'Residuals of one bracketed output do not depend on another one.')

prop('P21', 'Cyclic definitions converge to a consistent fixed point',
     'Outputs that are created first and defined later in terms of '
     'themselves and of each other equal, at convergence of the solver of '
     'the group, their defining expressions, and everything downstream uses '
     'the converged values. The iteration starts from the values the '
     'outputs were created with. Total derivatives equal those of the implicit '
     'function theorem in both modes.',
     ['programs', 'inputs', 'configurations'],
     'every contracting cyclic definition of one or more outputs, in the '
     'model or in a subsystem, fixed-point and Newton solvers',
     'The tests have three scalar models.', [EXO, GRP, GRA],
     [('definition of created outputs', EXO),
      ('cycles cut at created outputs when sorting', GRP)], RUN,
     'runtime monitor: fixed-point and implicit-function-theorem oracles',
     'Only definitions that contract by at least 0.7 per sweep are judged.')

prop('P22', 'Ill-formed expressions are rejected, never evaluated',
     'An expression that is not well formed (operand shapes that do not '
     'match, axes, labels or indices out of range, arguments that are not '
     'expressions, constants that are not real, unsupported exponents and '
     'norm orders, division by zero constants, sizes that differ in a reshape, branches of different '
     'shapes) raises an exception at the latest when the model is set up; it '
     'never yields a value and never ends the process. The same expression '
     'written correctly is accepted.', ['programs', 'inputs'],
     'every use of a public operation with operands that violate its '
     'requirements', 'The tests cover some fixed wrong calls; silent '
     'broadcasts of others are not tested.', [VAR, STD, CMP],
     [('argument checks in constructors of expressions', STD),
      ('operand checks in operators', VAR)],
     ['exceptions raised by construction, setup and run'],
     'runtime monitor: accept/reject oracle over ill-formed programs and '
     'their well-formed twins',
     'An exception raised while constructing, setting up or running counts '
     'as rejection; 31 families of mistakes.')

prop('P23', 'Results depend only on the current inputs, not on history',
     'After any history of setting inputs, running, computing derivatives '
     'and setting up again, over one or more live problems made from the '
     'same classes, values and total derivatives are those of the model at '
     'the current inputs. Running twice changes nothing, and arrays passed '
     'to the package as values or constants are never modified.',
     ['histories', 'programs', 'inputs'],
     'every model (explicit, nested, implicit) and every finite history of '
     'these operations', 'Tests set up, run once and compare.',
     [GRP, VAR, IMC, CMP],
     [('graph rebuilt at every setup', GRP),
      ('inner problem of implicit components', IMC)],
     RUN + ['arrays handed to the package, before and after'],
     'runtime monitor: history checker against the model at the current '
     'inputs', 'One known finding: derivatives after setting up the same '
     'problem again (see known_findings.json).')

prop('P24', 'Setup work stays polynomial in the size of the model',
     'Setting up a model always terminates, and the work it does grows '
     'polynomially (at most with the fourth power) with the number of '
     'expressions, also when expressions are shared along exponentially '
     'many paths, in chains, fans, grids, nested or cyclic models.',
     ['programs'],
     'every graph of expressions; observed on fifteen families at several '
     'sizes', 'All models of the tests are small; none shares expressions '
     'repeatedly in depth.', [GRP, GRA, VAR],
     [('each node visited once while analyzing the graph', VAR),
      ('sorting and removal of indirect dependencies', GRA)],
     ['jumps and calls executed by package code during setup',
      'values of the small members of each family'],
     'runtime monitor: logical step counter (sys.monitoring) with growth '
     'oracle', 'Work is counted in jumps and calls of package code, not in '
     'time.')

prop('P25', 'Conditional expressions select by the sign of the condition',
     'A conditional expression equals its second argument where the '
     'condition is not negative and its third where it is negative, for '
     'branches of any shape, and its total derivatives are those of the '
     'selected branch only, in both modes. It follows the condition when the '
     'inputs change.', ['programs', 'inputs'],
     'every condition and pair of branches of equal shape, also computed '
     'from the same inputs, at points on both sides of the switch and on it',
     'The tests evaluate one scalar example.',
     [STD + 'if_else.py', CMP + 'conditional_component.py'],
     [('selection and partials', CMP + 'conditional_component.py')],
     RUN, REFMON, PT)

prop('P26', 'Names are valid, unique and the given ones are kept',
     'However many expressions are created in a process, automatically named '
     'ones never get the same name, and names are valid component and '
     'variable names. A registered output is found under exactly the name '
     'it was registered with and nothing else takes that name.',
     ['programs', 'histories'],
     'any number of expressions, any models and names',
     'The tests create a few hundred expressions per process.',
     ['omtools/utils/gen_hex_name.py', VAR, GRP],
     [('generator of names', 'omtools/utils/gen_hex_name.py'),
      ('names of components', GRP)],
     ['names of expressions', 'names of components and outputs of the '
      'model'], 'runtime monitor: uniqueness checker over name event streams',
     'Users are assumed not to choose names that start with an underscore.')

prop('P27', 'Options hold only values that their declaration admits',
     'An option can be read only after it was given a value or a default, '
     'and an assignment of a value that is not among the declared values, '
     'not of the declared types, outside the declared bounds, rejected by '
     'the declared validity function or not declared at all, or to a '
     'read-only dictionary, raises an error and changes nothing. All other '
     'assignments and bulk updates take effect and reads return them.',
     ['histories', 'inputs'],
     'every history of declarations, assignments, updates, reads, removals, '
     'membership tests and iterations', 'The tests do not test options.',
     ['omtools/utils/options_dictionary.py'],
     [('declaration and validation of options',
       'omtools/utils/options_dictionary.py')],
     ['errors raised by each operation', 'all readable values after each '
      'operation'], 'runtime monitor: history checked step by step against a '
     'sequential model', 'Types are given as a type or tuple of types; '
     'bounds are used with numbers.')

prop('P28', 'Expressions report the shape their value will have',
     'The shape an expression reports while the model is written is the '
     'shape of the value it has after a run, for every operation and '
     'operand shape, whether or not it is registered.', ['programs'],
     'every expression', 'The tests look at values, hardly at reported '
     'shapes.', [VAR, STD],
     [('shape computed by every constructor', STD)],
     ['shape attribute of expressions', 'shape of outputs of the model',
      'shape of values'],
     'runtime monitor: shape contracts on live expression objects', PT)

prop('P29', 'Ill-formed models are rejected, never run',
     'A model that registers an input or the same expression twice, uses one '
     'name for two outputs or subsystems, leaves a created output undefined, '
     'defines it twice, defines and assigns it, assigns overlapping, out of '
     'range or mismatching parts, gives values, definitions or brackets of another '
     'shape, connects different shapes or requires an impossible execution '
     'order raises an exception at the latest when it is set up. The '
     'corrected model is accepted.', ['programs', 'configurations'],
     'every model with one such mistake, at the top level or in a subsystem',
     'The tests cover a few of the mistakes, one example each.',
     [GRP, EXO, IMO, VAR],
     [('checks in registration, definition and assignment',
       GRP + ', ' + EXO + ', ' + IMO)],
     ['exceptions raised by construction, setup and run'],
     'runtime monitor: accept/reject oracle over ill-formed models and their '
     'well-formed twins',
     'An exception raised while constructing, setting up or running counts '
     'as rejection; 31 families of mistakes.')

prop('P30', 'Subsystems keep their name and only what is asked is promoted',
     'A subsystem added under a name is found under that name; exactly the '
     'variables listed to be promoted (all, some, by patterns or renamed) are '
     'accessible in the parent, and the others keep their path. Inputs and '
     'outputs that are promoted are connected to those of the same name, '
     'others only by explicit connections.',
     ['programs', 'configurations'],
     'every tree of subsystems and every choice of promotions',
     'The tests promote everything or nothing.',
     [GRP, 'omtools/core/subsystem.py'],
     [('subsystems added with their name and promotions', GRP),
      ('subsystem nodes', 'omtools/core/subsystem.py')],
     ['names of variables of the model', 'values read under promoted and '
      'full names'], 'runtime monitor: state checks on the names and values '
     'of generated models', 'Held on the generated models.')

prop('P31', 'Models can be differentiated by complex step',
     'With imaginary parts of infinitesimal size added to its inputs, a model '
     'set up for complex step computes outputs whose imaginary parts are the '
     'exact directional derivatives, for every operation and composition of '
     'them, in subsystems and through cyclic definitions and implicit '
     'outputs found by Newton or in a bracket; the partials the components '
     'declare agree with complex step, and afterwards, at real values, the '
     'outputs are what they were.',
     ['programs', 'inputs', 'configurations'],
     'every model, point and direction',
     'No test uses complex step except to check the partials of a few '
     'components.',
     ['omtools/comps/', IMC],
     [('computations and partials of the components', 'omtools/comps'),
      ('internal problem of implicit components', IMC)],
     ['real and imaginary parts of the outputs', 'declared partials',
      'approximated totals'],
     'runtime monitor: complex-step run of generated models compared with '
     'the reference derivative; state check after returning to real values',
     'Held on the generated models; a complex step of 1e-30 (1e-40 where '
     'OpenMDAO chooses it) and the direct linear solver.')

prop('P32', 'Group and component classes are reusable',
     'A class of groups or of implicit components can be instantiated any '
     'number of times, with different options, in one model or several, '
     'unpromoted or connected explicitly, and classes derived from it may '
     'change its defaults, inherit its setup or extend it through super(): '
     'every instance computes its own definition, with its own options, '
     'initial values and derivatives, and none affects another.',
     ['classes', 'options', 'instances', 'connections'],
     'every class hierarchy, set of instances and connections',
     'The examples instantiate each class once.',
     [GRP, IMC],
     [('wrapping of setup by the metaclasses', GRP),
      ('wrapping of setup of implicit components', IMC)],
     ['names, values and total derivatives of each instance'],
     'runtime monitor: values and totals of models of several instances '
     'against the reference of the assembled model',
     'Held on the generated classes, instances and connections.')

prop('P33', 'A rejected or failed step leaves no trace',
     'An exception raised by the user or by a component while a model is set '
     'up, in a with-block, run or differentiated reaches the caller as it '
     'is. Afterwards, without the cause, the same model can be set up and '
     'run again and has the components, values and derivatives it would '
     'have had; so have other instances. A rejected statement, when the '
     'user catches the error, adds, changes or removes nothing, and the '
     'corrected statement is accepted.',
     ['programs', 'faults', 'fault positions'],
     'every model, fault and position',
     'No test goes on after an error.',
     [GRP, EXO, IMC, VAR],
     [('graph discarded by the next setup', GRP),
      ('checks before changes in indexed assignment', EXO),
      ('internal problem of implicit components', IMC)],
     ['exceptions that reach the caller', 'components, values and totals of '
      'the next attempt'],
     'fault injection at observed points of setup, run and linearization; '
     'census, values and totals of the next attempt against the reference',
     'Held for the injected faults; not for exceptions while an implicit '
     'component is linearized (OpenMDAO does not recover from these).')


prop('P34', 'Coupled subsystems converge to one consistent solution',
     'Disciplines that use the values of each other, each in a subsystem or '
     'in the parent, written in any order and met by promotion or by explicit '
     'connections, agree at convergence of the solver of the parent: every '
     'value is what its discipline computes from the values of the others. '
     'Everything downstream uses the converged values, and total derivatives '
     'in both modes are those of the implicit function theorem applied to '
     'the coupled system.',
     ['programs', 'inputs', 'distributions over subsystems', 'solvers'],
     'every contracting coupling of two or more disciplines, every way to '
     'distribute them, every nonlinear and linear solver',
     'The tests have no model whose subsystems depend on each other.',
     [GRP, 'omtools/core/subsystem.py', 'omtools/core/input.py'],
     [('order of subsystems and the expressions around them', GRP),
      ('inputs declared before the subsystem that computes them',
       'omtools/core/input.py'),
      ('promotion of the variables of subsystems', GRP)],
     RUN, 'runtime monitor: reference fixed point and implicit function '
     'theorem over generated coupled models',
     'Held on the generated couplings; only contractions (0.85 in the '
     'maximum norm) are judged.')


prop('P35', 'Optimizers see exact values and gradients of the model',
     'Throughout an optimization, the objective, the constraints and their '
     'gradients that a driver is given are those of the model at the design '
     'variables of that moment, whether these are flagged or declared, with '
     'or without scaling and total colouring. Total derivatives do not '
     'depend on which ones are asked for, nor on the linear solver or the '
     'form of the Jacobian in the model and its subsystems.',
     ['programs', 'inputs', 'histories of designs', 'configurations'],
     'every model with an objective, every sequence of designs, every linear '
     'solver and subset of derivatives',
     'No test has a driver, a design variable, a solver other than the '
     'default in an explicit model, or more than one evaluation.',
     [GRP, 'omtools/core/indep.py', CMP],
     [('design variables of a group', GRP),
      ('partials declared by the components', CMP)],
     ['values and gradients returned to the driver at every evaluation',
      'Problem.compute_totals'],
     'runtime monitor: hooks on the driver compare every evaluation with the '
     'reference model',
     'Held on the generated models and the designs the optimizer visited.')


prop('P36', 'Stock components are usable by themselves, with exact partials',
     'Every stock Component subclass, added to an OpenMDAO model without any '
     'expression, computes its formula with exact total derivatives, '
     'whichever way its options are spelled (one name or a list, numbers, '
     'lists, arrays or dictionaries of coefficients and powers, shapes '
     'given or left out), whether its inputs are promoted, connected or '
     'left to their initial values, for any number of instances and set-ups, '
     'and leaves its arguments unchanged.',
     ['programs', 'inputs', 'configurations'],
     'every stock component, every combination of its options, every point '
     'where the formula is differentiable',
     'The tests reach components through expressions only, which never use '
     'most of their options.',
     [CMP],
     [('options, values and partials of each component', CMP)], RUN,
     REFMON.replace('executions', 'configurations'),
     'Held on the generated options and points. Not covered: '
     'ConditionalComponent (unused, cannot be instantiated), and the two '
     'components whose options are expressions.')


prop('P37', 'Every kind of building block works next to every other',
     'In a model that mixes expressions, subsystems written as subclasses, '
     'with-blocks or filled before or after being added, OpenMDAO components '
     'and groups, implicit components solved by Newton or in brackets, '
     'cyclic definitions and further subsystems that hold such mixtures, '
     'every piece computes its own definition on the values it is handed by '
     'the others, at every point the model is run at, and total derivatives '
     'across the pieces are exact in both modes.',
     ['programs', 'inputs', 'histories of points', 'configurations'],
     'every mixture and nesting of kinds, every link between them, every '
     'point at which the iterations converge',
     'The tests have one kind of building block per model.',
     [GRP, GRA, IMO, IMC],
     [('setting up and running the subsystems of a group', GRP),
      ('implicit components in a model', IMC)],
     RUN + ['Problem.compute_totals'],
     'runtime monitor: every stage of a chain is judged on the values it '
     'received, derivatives against the chain rule over the stages',
     'Held on the generated chains. Derivatives of implicit components '
     'with several states are judged with all states asked for unless a '
     'direct solver is used (OpenMDAO).')

prop('P38', 'Long histories of runs and of models leave nothing behind',
     'However often a model is run and differentiated, at however many '
     'different points, the memory that omtools code keeps, the number of '
     'objects it keeps and the work it does per run stay what they are '
     'after the first runs; and once a problem is dropped, none of the '
     'variables, groups and components made for it stay alive, even after '
     'it was set up several times.',
     ['histories of runs', 'programs', 'inputs', 'configurations'],
     'every number of runs and set-ups, every model, every sequence of '
     'points',
     'The tests run each model once and end; growth per run shows only in '
     'long histories, under a monitor of what stays alive.',
     [GRP, VAR, IMC, CMP],
     [('computing and differentiating components', CMP),
      ('running residual models inside implicit components', IMC),
      ('setting up the registered expressions of a group', GRP)],
     ['live allocations by code of omtools (tracemalloc)',
      'live objects of omtools classes (gc)',
      'logical steps per run (sys.monitoring)'],
     'runtime monitor: leak detector over live allocations, live objects '
     'and steps per round',
     'Held on the generated histories of a few dozen rounds. Growth by '
     'less than 24 bytes per round, and by what OpenMDAO itself keeps '
     '(components of earlier set-ups of a live problem among it), is not '
     'seen.')

prop('P39', 'No floating-point exceptions or warnings of its own',
     'Where the mathematics of a model is defined and its numbers are of '
     'ordinary magnitude, setting it up, running it and differentiating it '
     'perform no division by zero, no overflow and no invalid operation, '
     'not even one whose result is discarded, and cause no Python warning; '
     'so models run under numpy.seterr(all="raise") and with warnings as '
     'errors, at zeros and ones among their inputs as well.',
     ['programs', 'inputs', 'floating-point environments'],
     'every model, every point where the definitions raise nothing '
     'themselves, both modes',
     'The tests run with the default settings of NumPy, where exceptions '
     'whose results are discarded cannot be seen, at random points, where '
     'no input is zero.',
     [STD, CMP, VAR],
     [('values and partial derivatives of the components', CMP),
      ('operators', VAR)],
     ['FloatingPointError and warnings raised while omtools code runs'],
     'sanitizer: trapped floating-point exceptions and warnings as errors',
     'Held on the generated models and points where the reference '
     'definitions raise nothing under the same settings; underflow is '
     'ignored.')


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if k not in (
                'technique', 'note')}) + '\n')
    m = {
        'version': 1,
        'setup_cmd': './check.py --self-test',
        'checks': [{
            'property': p['id'],
            'quick_cmd': './check.py %s --tier quick' % p['id'],
            'thorough_cmd': './check.py %s --tier thorough' % p['id'],
            'evidence_file': 'evidence/%s.json' % p['id'],
            'technique': p['technique'],
            'level': 'exploration',
            'level_note': p['note'],
        } for p in P],
        'not_applicable': [],
        'notes': 'No hooks in /repo: components and graph nodes are '
                 'instrumented from /verif at run time. Written by '
                 'tools/registry.py.',
    }
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()

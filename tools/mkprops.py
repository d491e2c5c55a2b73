"""Writes properties.jsonl (kept as a script so that the text stays editable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))

C = 'paramz/core/'
prop('P01', 'One shared storage for every handle on a parameter',
 "The values and the gradients seen through a parameter, through every node above it and through the root are one and the same storage: each handle shows the contiguous block of its root's flat vector that its position in the hierarchy dictates, and a write through any handle is at once visible through all others. No operation changes a value it does not address, and structural operations, copies and reloads keep every value.",
 ['histories', 'inputs'], "every history of value writes, linking, unlinking, moving, constraining, optimizing, copying and reloading, for every hierarchy shape and parameter shape",
 "Tests check a few fixed trees after one or two operations; aliasing goes wrong after particular sequences of structure changes, which only many random histories reach.",
 [C+'parameter_core.py', 'paramz/parameterized.py', 'paramz/param.py'],
 [('memory propagation', C+'parameter_core.py:_propagate_param_grad'), ('connecting children to the flat array', 'paramz/parameterized.py:_connect_parameters')],
 ['param_array and gradient_full of every node', 'values and gradient of every parameter'])
prop('P02', 'Linking, moving and unlinking keep the hierarchy consistent',
 "After any sequence of link, insert, move and unlink operations, the children, their order, the sizes, the parents and the traversal of every node are those the operations dictate, and an unlinked part is an independent hierarchy. A request that would put an element into its own hierarchy twice, link a node below itself, or unlink something that is not a child is refused with a hierarchy error and leaves both sides exactly as they were and fully usable.",
 ['histories', 'programs'], "every sequence of legal and illegal structure operations on trees of any depth and fan-out, at any child index",
 "Tests link and unlink single children of one fixed tree; bookkeeping of sizes and indices across levels and after refused requests depends on the history.",
 ['paramz/parameterized.py', C+'parentable.py', C+'parameter_core.py', C+'indexable.py'],
 [('link and unlink', 'paramz/parameterized.py:link_parameter, unlink_parameter'), ('traversal', C+'parameter_core.py:traverse, traverse_parents'), ('disconnecting', C+'indexable.py:_disconnect_parent')],
 ['parameters, size, flattened_parameters, traverse of every node'])
prop('P03', 'Constraint bookkeeping follows the calls made, at every level',
 "Constraining replaces every previous constraint of exactly the addressed elements, fixing is added on top and unfixing restores what was there before, and removing a given constraint removes only that one. The constraints reported by a parameter, by every node above it and by the root describe the same elements at all times, and they travel with their parameters when these are linked, moved, unlinked, copied or reloaded. What is no constraint is refused and changes nothing.",
 ['histories', 'inputs'], "every sequence of constrain, fix, unfix and unconstrain calls on parameters, slices, nodes and regular-expression selections, interleaved with structure changes",
 "Tests look at single calls on one fixed tree; the shared index table is shifted, merged and split by structure changes, so errors need a history.",
 [C+'constrainable.py', C+'index_operations.py', C+'indexable.py'],
 [('constrain and fix', C+'constrainable.py'), ('index table with views', C+'index_operations.py'), ('offset of a parameter below a node', C+'indexable.py:_offset_for')],
 ['constraints of every parameter, node and root'])
prop('P04', 'Constrained parameters always stay in their domain',
 "Whenever a constraint is put on parameters their values are moved into its domain at once (values already inside are kept), also before the hierarchy is initialised. From then on any vector the optimizer can set, however extreme, leaves every constrained and unfixed parameter inside the domain of its constraint.",
 ['inputs', 'histories'], "every starting value (including extremes), every constraint and bound, every selection of elements, every finite optimizer vector",
 "Tests use small random vectors and one or two constraints; saturation, selections by fancy index and construction-time constraints are not reached.",
 [C+'constrainable.py', 'paramz/transformations.py', C+'parameter_core.py'],
 [('initial values', C+'constrainable.py:constrain'), ('mapping from the optimizer space', C+'parameter_core.py:optimizer_array'), ('transformations', 'paramz/transformations.py')],
 ['values of constrained parameters'])
prop('P05', 'Fixed parameters never change unless set directly',
 "No optimization, restart, randomization, gradient check or assignment of an optimizer vector at any level changes the value of a fixed element by even one bit. Fixed elements are left out of the optimizer vector, of its names and of its gradient at every level, and the remaining elements keep their order.",
 ['histories', 'inputs'], "every pattern of fixed elements produced by any history of fix, unfix, constrain and structure changes, at the root, at nodes and at single parameters",
 "Tests fix one parameter of one model; partial fixes at several levels after structure changes are not covered.",
 [C+'constrainable.py', C+'parameter_core.py', 'paramz/model.py'],
 [('mask of fixed elements', C+'constrainable.py:_ensure_fixes'), ('optimizer vector', C+'parameter_core.py:optimizer_array'), ('names', C+'parameter_core.py:parameter_names_flat')],
 ['param_array before and after', 'optimizer_array', 'parameter_names_flat', 'unfixed_param_array'])
prop('P06', 'The optimizer vector always reflects the model and round-trips',
 "At every moment and level the optimizer vector is exactly the current unfixed values mapped through the inverse of their constraints, whatever happened to values, constraints and structure since it was last read. Setting a vector makes the unfixed values its image under the constraints, reading it back gives the same vector, and setting back what was read changes nothing (up to rounding).",
 ['histories', 'inputs'], "every history of value, constraint and structure changes between two reads, every admissible vector, at roots, nodes and parameters",
 "Tests set and read one vector on one model; staleness of the cached vector needs a change between two reads through another handle.",
 [C+'parameter_core.py', C+'constrainable.py', 'paramz/transformations.py'],
 [('getter and setter of the optimizer vector', C+'parameter_core.py:optimizer_array')],
 ['optimizer_array', 'param_array'])
prop('P07', 'Every constraint is a consistent smooth change of variables',
 "For every provided constraint the mapping to the model space and its inverse undo each other, the gradient factor is the derivative of the mapping, and where a log-Jacobian is provided it and its gradient are the logarithm of the absolute derivative and its derivative. The mapping stays inside the declared domain for every finite input, starting values are moved into the domain once and not again, and asking twice for the same constraint gives the same object, of exactly the class asked for.",
 ['inputs'], "every finite optimizer value, every model value in the domain, every pair of bounds, every creation order and lifetime of bounded constraints, pickling included",
 "Tests only check gradients of one model; the laws have to hold over the whole range, including the numerically delicate ends.",
 ['paramz/transformations.py', 'paramz/domains.py'],
 [('transformations', 'paramz/transformations.py')],
 ['f, finv, gradfactor, log_jacobian, log_jacobian_grad, initialize of every transformation'])
prop('P08', 'The optimizer gets the objective and its true gradient',
 "Every objective and gradient an optimizer asks for are those of the model at exactly the requested vector: the objective equals a recomputation from scratch, and the gradient equals the derivative of the objective with respect to the optimizer vector, constraints and fixed elements taken into account. Asking leaves the gradient stored in the model the one with respect to the model values, so that any order and repetition of requests gives the same answers.",
 ['histories', 'inputs'], "every model, pattern of constraints and fixed elements, optimizer vector, and every sequence of objective and gradient requests",
 "Tests run the gradient check on a handful of models; dependence on earlier requests, on nesting and on partial constraints is not sampled.",
 ['paramz/model.py', C+'parameter_core.py', 'paramz/transformations.py'],
 [('objective and gradient wrappers', 'paramz/model.py:_objective_grads'), ('chain rule', C+'parameter_core.py:_transform_gradients')],
 ['callables handed to an optimizer', 'gradient of the model'])
prop('P09', 'The gradient check gives the right verdict and leaves no trace',
 "The gradient check accepts every correctly implemented gradient and rejects a gradient with a clearly wrong component among the checked ones, for the whole model, a node, a parameter, a slice or a regular-expression selection, summarised or per element. It judges only the selected free parameters, and it leaves values, gradient, constraints and objective as they were (up to rounding).",
 ['inputs', 'histories'], "every smooth model, every pattern of constraints and fixed elements, every selection, every random direction the check draws, both modes",
 "Tests call it on a few correct models; wrong gradients, selections with fixed elements and restoration afterwards are not examined.",
 ['paramz/model.py', C+'gradcheckable.py', C+'indexable.py'],
 [('gradient check', 'paramz/model.py:_checkgrad'), ('index of a selection in the optimizer vector', C+'indexable.py:_raveled_index_for_transformed')],
 ['return value', 'param_array, gradient before and after'])
prop('P10', 'Every change is announced to everyone concerned, once and in order',
 "A change of a parameter triggers one update of every node above it, bottom up and with the new values already in place; a change made through a node or through the optimizer vector also tells the parts below it first, children before parents, where only parts whose elements are all fixed may be left out of an optimizer update. Observers are called in order of priority, insertion order among equals, with the changed object and the origin of the change; restricting to a minimum priority, re-prioritising and removing affect exactly the observers meant, and observers that no longer exist are skipped.",
 ['histories', 'configurations'], "every tree, every writable handle, every set of observers with any priorities, added and removed in any order",
 "Tests register one or two observers on fixed objects; ordering, exactly-once delivery and removal are properties of all configurations.",
 [C+'observable.py', C+'lists_and_dicts.py', C+'parameter_core.py', C+'updateable.py', C+'observable_array.py'],
 [('notification', C+'observable.py:notify_observers'), ('observer list', C+'lists_and_dicts.py:ObserverList'), ('update cascade', C+'parameter_core.py:_trigger_params_changed')],
 ['recorded update calls', 'recorded observer calls'])
prop('P11', 'Derived state is fresh while updates are on and quiet while they are off',
 "While updates are on, everything a model derives from its parameters equals a recomputation from scratch after every operation that changes parameter values, whichever handle it went through. While updates are switched off nothing is recomputed, the values still change, and switching updates on again brings all derived state up to date in every part of the model, fixed parts included.",
 ['histories'], "every history of value, constraint and optimizer operations through any handle, with updates switched off and on at any point from any part of the hierarchy",
 "Tests toggle once around one assignment; a missed update shows only for particular handles and particular histories.",
 [C+'updateable.py', C+'parameter_core.py', 'paramz/parameterized.py', 'paramz/param.py'],
 [('update switch', C+'updateable.py:update_model, trigger_update'), ('assignment', 'paramz/parameterized.py:__setitem__'), ('concatenations', 'paramz/param.py:update_all_params')],
 ['objective and cached state of every node'])
prop('P12', 'Caching never changes a result',
 "A cached function returns what the function would return now for the given arguments, for every history of calls, in-place changes of arguments (through any view), failures, resets and switching caching on and off, and for any cache size. It calls the function again only if one of its arguments changed, the call was not among the most recent distinct ones, a result may not be cached or recomputation was forced; a call that raises leaves no entry behind. It holds at most as many results as its size says, and after a reset no observer of it is left on any argument.",
 ['histories', 'inputs', 'fault_sequences'], "every sequence of calls with observable arrays, views, numbers, strings, None and keywords, changes between calls, exceptions in the function, garbage collection, cache sizes and ignored or forcing arguments",
 "Tests use short scripted sequences with few arguments; staleness and eviction errors depend on the interleaving of calls and changes.",
 ['paramz/caching.py'],
 [('cache', 'paramz/caching.py:Cacher'), ('decorator', 'paramz/caching.py:Cache_this')],
 ['return values and number of calls of the wrapped function'])
prop('P13', 'A copy is equal, complete and fully independent',
 "A copy of a model, node or parameter has the same structure, names, values, constraints, fixed elements and objective as the original, has no parent, and is itself fully working. Afterwards nothing done to either one is visible in the other, and copying leaves the original untouched.",
 ['histories'], "every object reached by any history, copied at any point and followed by any operations on either side",
 "Tests copy a fresh model once and compare a few attributes; shared arrays or index tables only show when both sides are used afterwards.",
 [C+'pickleable.py', 'paramz/parameterized.py', 'paramz/param.py', C+'observable_array.py'],
 [('copy', C+'pickleable.py:copy'), ('deep copy of parameters', 'paramz/param.py:__deepcopy__')],
 ['full observable state of copy and original'])
prop('P14', 'Saving and loading restores the same working model',
 "A model saved at any point to a file name or to an open file and loaded again, in the same or in another process, has the same structure, names, values, constraints, fixed elements, objective and optimizer vector, and behaves like the original in every later operation: constraints can be removed, parameters set, linked and optimized. Saving leaves the original untouched.",
 ['histories', 'configurations'], "every model reached by any history, saved with every binary pickle protocol to a path or buffer, and any operations after loading",
 "Tests reload one model and compare arrays; identity of constraints and usability after loading are not checked.",
 [C+'pickleable.py', 'paramz/__init__.py', 'paramz/parameterized.py', 'paramz/transformations.py', C+'observable_array.py'],
 [('saving', C+'pickleable.py:pickle'), ('loading', 'paramz/__init__.py:load'), ('restoring', 'paramz/parameterized.py:__setstate__')],
 ['full observable state before and after'])
prop('P15', 'Indexing and selecting address exactly the selected elements',
 "Setting, constraining, fixing or unconstraining through an index of a parameter (integers, slices, masks, index arrays, in any combination numpy accepts), through a flat index of a node, or through a regular expression affects exactly the elements that the same numpy index, flat position or matching name designates, and reading returns their values in the same order. A selection that matches nothing is an attribute error, and concatenated selections behave like the flat concatenation of their parameters every time they are used.",
 ['inputs', 'histories'], "every parameter shape, every one-level numpy index, every regular expression over the names, any number of uses of one selection",
 "Tests use a few slices; fancy indexing, higher dimensions, zero values and repeated use of a selection are not covered.",
 ['paramz/param.py', 'paramz/parameterized.py', C+'indexable.py'],
 [('index of a view', 'paramz/param.py:_raveled_index'), ('lookup by name', 'paramz/parameterized.py:grep_param_names'), ('concatenation', 'paramz/param.py:ParamConcatenation')],
 ['values and constraints after the operation'])
prop('P16', 'Names are unique and always lead to the right parameter',
 "Siblings always have different names, also after clashes, renames, links and unlinks; each child can be reached and assigned as an attribute of its parent under its current name and no longer under a former one. The list of parameter names and the flat list of names are in the order of the values, the flat one aligned element by element with the flat values and, without fixed elements, with the optimizer vector. A name that cannot be printed is refused, by renaming and by linking alike, and the refusal changes nothing.",
 ['histories', 'inputs'], "every history of linking, unlinking and renaming with clashing and printable-equal names, with any pattern of fixed elements",
 "Tests rename once; alignment and reachability must survive every history.",
 [C+'nameable.py', C+'parameter_core.py', 'paramz/parameterized.py'],
 [('making names unique', C+'parameter_core.py:_add_parameter_name'), ('renaming', C+'nameable.py:name'), ('flat names', C+'parameter_core.py:parameter_names_flat')],
 ['parameter_names, parameter_names_flat, attribute access'])
prop('P17', 'Optimizing ends in the reported optimum and never in a worse state',
 "After optimizing with any of the provided optimizers the model is set to the reported solution, the reported objective value is the objective there and not worse than at the start, and the run is recorded once. The model is only evaluated at finite points, and not more often than the iteration limit allows up to the granularity of the algorithm. Well-conditioned convex problems are solved, by the quasi-Newton and conjugate gradient optimizers also with constraints (with bounds on both sides unless the iteration limit ends the run). Neither fixed parameters nor reading the model during the run influence its course, and a model without free parameters is left alone.",
 ['inputs', 'configurations', 'histories'], "every provided optimizer available offline, every model and start, every pattern of constraints and fixed elements, any iteration limit",
 "Tests run each optimizer once or twice on one example and compare with a target; consistency of report and state over patterns of constraints and fixes is not sampled.",
 ['paramz/model.py', 'paramz/optimization/optimization.py', 'paramz/optimization/scg.py'],
 [('optimize', 'paramz/model.py:optimize'), ('optimizers', 'paramz/optimization/optimization.py'), ('scaled conjugate gradients', 'paramz/optimization/scg.py:SCG')],
 ['optimization_runs, param_array, objective'])
prop('P18', 'Numerical failures are tolerated up to the limit and not silently beyond',
 "When evaluating the model fails numerically (linear algebra error, division by zero, value error) during an optimization, the optimizer is told an infinite objective and a finite-bounded gradient, up to the allowed number of consecutive failures; one success starts the count anew, and the next failure beyond the limit reaches the caller as the original error. Any other kind of error reaches the caller at once, and whatever failed, the model accepts new values and gives correct results afterwards.",
 ['fault_sequences', 'crash_points'], "every placement of failures of every kind in any sequence of objective and gradient requests, with any allowed number of failures",
 "Tests let one fixed model fail in one pattern; counting and resetting is a property of all failure sequences.",
 ['paramz/model.py'],
 [('failure handling', 'paramz/model.py:_objective, _grads, _objective_grads')],
 ['answers and errors of the callables handed to an optimizer'])
prop('P19', 'Randomizing and restarts respect constraints and keep the best result',
 "Randomizing draws every free element from the given generator in the optimizer space, leaves fixed elements and the update switch as they are and all derived state up to date. Optimizing with restarts leaves the model in the best of the solutions of these restarts; with tolerance for errors failed restarts are skipped, and if all fail the model is back at its initial values, while without tolerance the error reaches the caller. Each restart is reported with its own outcome.",
 ['inputs', 'fault_sequences', 'histories'], "every model and pattern of constraints, every generator, every number of restarts and every pattern of failing or diverging restarts",
 "Tests run restarts that succeed; selection of the best among failing, diverging and earlier runs is not examined.",
 ['paramz/model.py', C+'parameter_core.py'],
 [('randomize', C+'parameter_core.py:randomize'), ('restarts', 'paramz/model.py:optimize_restarts')],
 ['param_array, optimization_runs'])
prop('P20', 'Index tables and their views are exact maps from property to indices',
 "A table that assigns properties to indices behaves as a map from each property to a sorted set of indices under any sequence of adding, removing, shifting, merging, clearing and copying, and queries for given indices list exactly the properties that hold there. A view with an offset and a size shows and changes exactly its window, in local indices; all else stays untouched, except that shifting through a view moves what lies behind the position in the whole table.",
 ['histories', 'inputs'], "every sequence of operations on a table and on any number of overlapping or nested windows, with any properties and indices",
 "Tests go through one scripted table; the algebra has to hold for all sequences.",
 [C+'index_operations.py', C+'lists_and_dicts.py'],
 [('table', C+'index_operations.py:ParameterIndexOperations'), ('window', C+'index_operations.py:ParameterIndexOperationsView')],
 ['items, indices, properties, properties_for, properties_dict_for of table and views'])
prop('P21', 'Deferred initialisation and parameter loading equal eager construction',
 "A model built without initialisation and initialised later, with or without updates switched off in between, is in every respect the model that immediate construction gives. The documented loading recipe, in which updates are off, the model is initialised, the flat values are assigned and updates are switched on, yields exactly the model whose values were saved, with all derived state up to date; assigning through a node before initialisation is refused.",
 ['programs', 'histories'], "every model class with any hierarchy and constraints set during construction, every assignment between construction and initialisation",
 "Tests cover one class and one order; the equivalence is over all constructions.",
 ['paramz/parameterized.py', C+'parameter_core.py', C+'updateable.py'],
 [('construction', 'paramz/parameterized.py:ParametersChangedMeta'), ('initialisation', C+'parameter_core.py:initialize_parameter')],
 ['full observable state of both models'])
prop('P22', 'Printed summaries tell the truth and change nothing',
 "The text and HTML summaries of models, nodes, parameters, slices and selections show the current names, values or shapes, and constraints of exactly the elements they cover, one row per parameter or element, and the model header shows the current objective and the numbers of parameters and free parameters. Printing in any form leaves values, gradients, constraints, names and the update state unchanged and triggers no update.",
 ['histories', 'inputs'], "every state reached by any history, every printable object",
 "Tests compare the text of one or two fixed models; agreement with the state after arbitrary histories is not checked.",
 ['paramz/param.py', 'paramz/parameterized.py', 'paramz/model.py'],
 [('parameter tables', 'paramz/param.py:__str__'), ('node tables', 'paramz/parameterized.py:__str__'), ('model header', 'paramz/model.py:__str__')],
 ['str, repr and HTML of every object'])
prop('P23', 'Watching an optimization does not change it; the example model is right',
 "Showing progress while optimizing changes neither the course nor the result of the optimization, and leaves no observer behind, however the optimization ends; the objectives, the runtime and the final status it shows are those of the run. The bundled ridge and lasso regression computes, for every design, degree, penalty and history of weight changes and optimizations, the regularised squared error, its gradient and predictions of its definition.",
 ['inputs', 'configurations', 'fault_sequences'], "every optimizer, model and way to end (convergence, limit, error), every design matrix, degree, regulariser and history of assignments",
 "Tests print once for a few time stamps and fit one data set.",
 ['paramz/optimization/verbose_optimization.py', 'paramz/examples/ridge_regression.py'],
 [('progress display', 'paramz/optimization/verbose_optimization.py:VerboseOptimization'), ('example model', 'paramz/examples/ridge_regression.py')],
 ['trace of evaluated vectors', 'observers of the model', 'objective, gradient, predictions'])
prop('P24', 'Observable arrays compute like plain arrays and announce in-place changes',
 "Every arithmetic, comparison, indexing and reduction expression on observable arrays and parameters has the values numpy gives for the plain data, and arithmetic results are plain arrays. Every item assignment and every in-place operation on an array or on a view of it changes the data as numpy would and notifies the observers exactly once, after the new values are in place; copies have equal data, no observers and their own memory, and an array survives pickling with its data.",
 ['inputs', 'histories'], "every shape, dtype, operator, operand kind and index, every history of in-place changes through arrays and views",
 "Tests exercise a few operators on one array.",
 [C+'observable_array.py', C+'observable.py', 'paramz/param.py'],
 [('array class', C+'observable_array.py:ObsAr')],
 ['values, type and identity of results', 'recorded notifications'])

prop('P25', 'Optimization options decide when it ends, and its status says why',
 "An optimization makes no more than its allowed number of iterations and ends, before that, only when one of its stopping rules holds on the points it has evaluated; the reported status names the rule that ended it, and the recorded objectives are those of the accepted points. Tightening a tolerance or raising a limit never shortens a run but continues the same one. The optimizers taken from scipy behave with every combination of options as the scipy routine called directly with these options, and an optimizer whose library is missing raises an import error that leaves the model as it was.",
 ['inputs', 'configurations'], "every optimizer, every combination of iteration limit and tolerances, every differentiable objective and start",
 "Tests run each optimizer with its default options on a fixed model; which rule ends a run, and whether the option given reaches the routine, depends on options and objective together.",
 ['paramz/optimization/optimization.py', 'paramz/optimization/scg.py'],
 [('scaled conjugate gradients', 'paramz/optimization/scg.py:SCG'), ('wrappers of the scipy routines', 'paramz/optimization/optimization.py')],
 ['recorded evaluations, status, x_opt, f_opt, funct_eval of the optimizers'])
prop('P26', 'Index tables added by users travel with their parameters',
 "An index table registered under a name on every part of a hierarchy (a prior, a note: any property of single elements) behaves like the built-in constraints: every handle sees exactly the entries of its own elements, at the elements' current positions, whatever is linked, moved, unlinked, replaced, copied or reloaded, also in another process, and a change through any handle is seen through all others. The summaries show it in a column of its own.",
 ['histories', 'programs'], "every hierarchy with any additional table, every sequence of table changes through any handle and structure operations",
 "The tests know only the tables that paramz itself registers; that the mechanism works for any table, at any place and after any history, is not tested.",
 [C+'indexable.py', C+'index_operations.py', 'paramz/parameterized.py', 'paramz/param.py', C+'parameter_core.py'],
 [('registering tables', C+'indexable.py:add_index_operation'), ('tables at linking and unlinking', 'paramz/parameterized.py:link_parameter, unlink_parameter'), ('columns of summaries', 'paramz/param.py:__str__')],
 ['the added table at every handle', 'str and HTML of parameters and nodes'])
prop('P27', 'The drawn graph of a hierarchy shows all its parts and observers',
 "The graph built of a hierarchy has one node for every part and every observer, drawn with its own shape and label, one edge from each part to each of its children in their order, and one edge for every further observation of a part. Building it, from any part and any number of times, changes neither the hierarchy nor its observers.",
 ['programs', 'histories'], "every hierarchy and every set of additional observers, after any history",
 "One test only builds a graph of one fixed tree; its agreement with the structure after arbitrary changes is not examined.",
 ['paramz/parameterized.py', C+'parameter_core.py', C+'observable.py'],
 [('building the graph', 'paramz/parameterized.py:build_pydot'), ('drawing a node', 'paramz/parameterized.py, paramz/param.py: build_pydot')],
 ['nodes, edges and attributes of the pydot graph'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(p) + '\n')
    print(len(P))

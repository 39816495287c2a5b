AI='abstract interpretation of operator-specialised LLVM IR against a mathematical rule table'
VO='include/cppad/local/var_op/'; SW='include/cppad/local/sweep/'
prop('P01','Forward mode computes every Taylor order by the operator\'s rule',
 'Forward mode of any order, and forward mode in several directions, computes for every operator the Taylor coefficients of the recorded function from those of its arguments, for every order and direction; it writes exactly the requested orders. Coefficients of lower orders are used, never changed. The Forward routines put each coefficient of the argument at the right variable, order and direction and return those of the dependent variables; coefficients that are kept survive a change of the order capacity or the number of directions.',
 ['inputs','programs'],'every operator in the elementary, arithmetic and power families, every order, every number of directions, every argument value',
 'Orders and argument values are unbounded; the existing tests run a handful of orders (mostly 0..5) at a few points, several operators only at order two in several directions.',
 [VO,SW+'forward_any.hpp',SW+'forward_dir.hpp','include/cppad/core/forward/forward.hpp','include/cppad/core/capacity_order.hpp'],[('one forward_any / forward_dir function per operator',VO+'*_op.hpp'),('operator dispatch',SW+'forward_any.hpp')],
 AI+'; affine array dataflow of the interface routines',TC,state=['ADFun::taylor_','ADFun::num_order_taylor_','ADFun::cap_order_taylor_','ADFun::num_direction_taylor_'],observe=['ADFun::Forward(q, xq)','ADFun::Forward(q, r, xq)'])
prop('P02','Reverse mode is the exact adjoint of forward mode for every operator and order',
 'For every operator and every order, reverse mode adds to the partial of each argument coefficient exactly the derivative of the result coefficients with respect to that argument coefficient times the partial of the result. No contribution is lost, duplicated or attributed to another argument or order. Reverse starts the sweep with exactly the weights it was given (adding those of a variable that is returned twice) and returns the partials of the independent variables.',
 ['inputs','programs'],'every operator in the elementary, arithmetic and power families, every order K, every Taylor coefficient value',
 'Holds for every order and value; tests check reverse mode at low orders at a few points.',
 [VO,SW+'reverse.hpp','include/cppad/core/reverse.hpp'],[('one reverse function per operator',VO+'*_op.hpp'),('Reverse','include/cppad/core/reverse.hpp')],AI+'; affine array dataflow of the interface routine',TC,observe=['ADFun::Reverse(q, w)'])
prop('P03','Order zero forward mode evaluates the operation that was recorded',
 'Evaluating a recorded function at any argument gives for every operation the value of the mathematical function it denotes applied to the recorded operands, in the order they were written. The zero order sweep and the general order sweep agree.',
 ['inputs','programs'],'every operator in the elementary, arithmetic and power families; both zero order implementations',
 'Two implementations of each operator must agree for every argument; tests evaluate a few points and one of the two paths.',
 [VO,SW+'forward_0.hpp',SW+'forward_any.hpp'],[('forward_0 and forward_any of each operator',VO+'*_op.hpp')],AI,TC,observe=['ADFun::Forward(0, x)'])
prop('P12','A zero partial derivative stays zero whatever the Taylor coefficients are',
 'In reverse mode a partial derivative that is zero contributes exactly zero, even when the Taylor coefficient it multiplies is infinite or not a number.',
 ['inputs'],'every operator that has a reverse rule, every argument value including infinities and nan',
 'Only arguments where an intermediate derivative overflows or is undefined show the difference; the tests do this for two operators.',
 [VO],[('azmul in every reverse rule',VO+'*_op.hpp')],'taint dataflow over operator-specialised LLVM IR','Sound for the reverse sweep of every operator: all loads of partials are tracked; products of user atomic functions are outside.',observe=['ADFun::Reverse'])

SP='must-inclusion dataflow over the set operations of operator-specialised LLVM IR'
SN='One operator at a time, the pattern class replaced by an abstract vector of sets; trusted: clang, the irx specialiser, the dependency table in rules/optable.py.'
prop('P04','Jacobian sparsity sweeps lose no dependency',
 'Forward and reverse Jacobian sparsity sweeps hand on, for every operator and every path, the pattern of each variable operand to (from) the result; with the dependency option also through comparisons\' operands of conditional expressions, discrete functions, sign, and VecAD indices. A pattern computed by ForSparseJac, RevSparseJac, for_jac_sparsity or rev_jac_sparsity therefore contains every entry that can be non-zero. Only variables are used as rows. These drivers hand every entry of the argument pattern to the set of its independent (dependent) variable, run the sweep over the whole recording with sets of the right size, and return every element of the set of each dependent (independent) variable, at its documented row and column, for both set representations and every transpose, dependency and internal flag.',
 ['programs'],'every operator except user atomic calls; every mask of a conditional expression; any number of summands in a cumulative sum; both dependency modes',
 'A missing entry only shows for an operation sequence and pattern that route a dependency through exactly that operand; tests try a few.',
 [SW+'for_jac.hpp',SW+'rev_jac.hpp','include/cppad/core/for_jac_sparsity.hpp','include/cppad/core/rev_jac_sparsity.hpp','include/cppad/core/for_sparse_jac.hpp','include/cppad/core/rev_sparse_jac.hpp','include/cppad/local/sparse/internal.hpp'],[('operator dispatch of the sweeps',SW+'for_jac.hpp, '+SW+'rev_jac.hpp'),('drivers','include/cppad/core/*jac_sparsity.hpp, *_sparse_jac.hpp, local/sparse/internal.hpp'),('set helpers',VO+'*_op.hpp')],SP,SN,observe=['ADFun::ForSparseJac','ADFun::RevSparseJac','ADFun::for_jac_sparsity','ADFun::rev_jac_sparsity'])
prop('P05','Hessian sparsity sweeps lose no second derivative',
 'Forward and reverse Hessian sparsity sweeps hand on, for every operator and every path, the pattern of the result to each variable operand (and back), the reverse Jacobian flags, and for every non-linear operator the pair of operands in which the second derivative can be non-zero. A pattern computed by ForSparseHes, RevSparseHes, for_hes_sparsity or rev_hes_sparsity therefore contains every entry that can be non-zero: the drivers select every variable of a selected dependent, hand over the forward Jacobian pattern and the selected domain, run the sweep over the whole recording and return every element of the sets at its documented row and column.',
 ['programs'],'every operator except user atomic calls; every mask of a conditional expression; any number of summands',
 'A missing entry only shows for an operation sequence that routes a second derivative through exactly that operand pair.',
 [SW+'for_hes.hpp',SW+'rev_hes.hpp','include/cppad/core/for_hes_sparsity.hpp','include/cppad/core/rev_hes_sparsity.hpp','include/cppad/core/for_sparse_hes.hpp','include/cppad/core/rev_sparse_hes.hpp'],[('operator dispatch of the sweeps',SW+'for_hes.hpp, '+SW+'rev_hes.hpp'),('drivers','include/cppad/core/*hes_sparsity.hpp, *_sparse_hes.hpp'),('set helpers',VO+'*_op.hpp')],SP,SN,observe=['ADFun::ForSparseHes','ADFun::RevSparseHes','ADFun::for_hes_sparsity','ADFun::rev_hes_sparsity'])
PW='path-sensitive value flow (disjunctive dataflow, no solver) over the LLVM IR of each overloaded function'
prop('P10','An operation on AD objects records exactly that operation',
 'Every overloaded operation of AD objects (arithmetic, compound assignment, unary functions, pow, azmul, atan2, conditional expressions) that is performed while recording leaves, for every combination of constant, dynamic and variable operands, a record that denotes exactly that operation on exactly those operands: the operator, the order and kind of its arguments and the identity of the tape are right, the value is the value of the operation, and an operand on another tape or a recording that ended counts as a constant. A result that is not recorded is the same function of its operands.',
 ['programs','inputs'],'every overloaded operator and function, every combination of operand kinds, every path',
 'The kinds of operands, the special cases of the values zero and one and dynamic parameters multiply to thousands of combinations; tests do a few for each operator.',
 ['include/cppad/core/add.hpp','include/cppad/core/cond_exp.hpp','include/cppad/core/standard_math.hpp'],[('overloaded operators','include/cppad/core/*.hpp'),('recorder interface','include/cppad/local/record/recorder.hpp')],PW,
 'The recorder is abstract (its calls are events); the record is interpreted with the table of operators. Trusted: clang, the walker rules/pathx.py, the operator table.',observe=['AD<Base>','CondExpLt','azmul','pow'])
prop('P11','A comparison records the relation that held and its change is counted',
 'Every comparison of AD objects returns the comparison of their values and, when an operand is a variable or dynamic parameter while recording, leaves an operator that states the relation which held (relation, operand order and kinds right). A zero order sweep counts an operator as changed exactly when its relation no longer holds at the new argument, whatever the operands are (including equal infinities), and remembers the operator at which the requested count is reached; sweeps that do not compute order zero leave the count alone.',
 ['programs','inputs'],'six comparison operators, every combination of operand kinds, both outcomes; every comparison operator, both zero order sweeps, every relation of the two operands',
 'A wrong record shows only when the comparison changes at another argument.',
 ['include/cppad/core/compare.hpp','include/cppad/local/var_op/compare_op.hpp',SW+'forward_any.hpp'],[('comparison operators','include/cppad/core/compare.hpp'),('change counters','include/cppad/local/var_op/compare_op.hpp, '+SW+'forward_0.hpp')],PW+'; conditional constant propagation of the sweeps',
 'As P10; the sweeps are followed with an oracle that fixes the relation of the operands, for every relation.',observe=['ADFun::compare_change_number','ADFun::compare_change_op_index','operator<'])
prop('P13','New dynamic parameters give every dependent parameter its own operation',
 'new_dynamic recomputes every dynamic parameter, in recording order, as the operation that defined it, of the parameters it was defined by; constants are never assigned; every operator steps over exactly its own arguments and results; results of atomic functions are stored in order and only in dynamic parameters.',
 ['programs','inputs'],'every dynamic parameter operator, any number of parameters',
 'A wrong argument position only shows for an operator in the middle of a sequence.',
 ['include/cppad/local/sweep/dynamic.hpp'],[('dynamic sweep','include/cppad/local/sweep/dynamic.hpp'),('argument counts','include/cppad/local/op_code_dyn.hpp')],'value flow through one step of the sweep, specialised for each dynamic operator',
 'One step of the loop for a symbolic position; trusted: clang, the irx specialiser, the walker rules/pathx.py.',observe=['ADFun::new_dynamic'])

prop('P06','Conditional skipping leaves out exactly the operations that only the branch not taken needs',
 'When an optimized function is evaluated, a conditional skip marks the operators listed for the side of the comparison that is not taken, for every comparison, every relation of the operands (including nan and equal infinities) and every kind of operand; only when both operands are known constants or computed. The marks are cleared before a zero order evaluation and kept for the higher order and reverse sweeps that follow; every sweep leaves out exactly the operators that are marked, the whole of an atomic call included.',
 ['programs','inputs'],'every comparison, relation, operand kind; every operator, every sweep that skips',
 'A wrong mark shows only for a particular relation of the operands after optimization, and a stale mark only for a sequence of evaluations.',
 ['include/cppad/local/var_op/cskip_op.hpp',SW+'forward_0.hpp',SW+'forward_any.hpp',SW+'forward_dir.hpp',SW+'reverse.hpp'],[('conditional skip operator','include/cppad/local/var_op/cskip_op.hpp'),('skip flags','ADFun::cskip_op_')],'conditional constant propagation and typestate over operator-specialised LLVM IR',
 'One operator at a time with an oracle for the relation of the operands. The operators the optimizer lists are decided by P09.',state=['ADFun::cskip_op_'],observe=['ADFun::Forward','ADFun::Reverse','ADFun::optimize'])
prop('P07','Every sweep visits every recorded operator once, with its own arguments and result',
 'Every sweep over an operation sequence (forward, reverse, Jacobian and Hessian sparsity) starts at the correct end, moves one operator per step, corrects the iterator exactly for operators that have a variable number of arguments, reads operator, arguments and result index of the operator it has stepped to, and stops at the other end and nowhere else.',
 ['programs'],'every operator in every sweep, every path of one iteration',
 'Only recordings where an operator of variable length precedes another operator, is skipped, or is last show a missing correction.',
 [SW+'forward_0.hpp',SW+'forward_any.hpp',SW+'forward_dir.hpp',SW+'reverse.hpp',SW+'for_jac.hpp',SW+'rev_jac.hpp',SW+'for_hes.hpp',SW+'rev_hes.hpp','include/cppad/local/play/sequential_iterator.hpp'],[('iterator','include/cppad/local/play/sequential_iterator.hpp')],'typestate analysis over operator-specialised LLVM IR',
 'The iterator is abstract in the sweeps.',observe=['ADFun::Forward','ADFun::Reverse','ADFun::for_jac_sparsity'])

prop('P08','Drivers return every derivative at its documented place',
 'Jacobian (forward and reverse version), Hessian (for a component or a weight vector), ForOne, RevOne and RevTwo evaluate the function at the argument they are given and return at each documented position exactly the derivative documented there, for any number of independent and dependent variables: each is computed by a sweep in the coordinate direction, or with the weights, of that position.',
 ['inputs','programs'],'the driver routines; sample numbers of independent and dependent variables, every component, direction and pair',
 'An index mistake shows only when the numbers of independent and dependent variables differ, or for a pair of components that is not symmetric; tests use a few shapes.',
 ['include/cppad/core/jacobian.hpp','include/cppad/core/hessian.hpp','include/cppad/core/for_one.hpp','include/cppad/core/rev_one.hpp','include/cppad/core/rev_two.hpp'],[('drivers','include/cppad/core/jacobian.hpp, hessian.hpp, for_one.hpp, rev_one.hpp, rev_two.hpp')],
 'affine array dataflow of the driver routines','Maps are polynomials over the loop counters; their equality is decided at sample sizes. Forward and Reverse are opaque (P01, P02). ForTwo is outside: which directions it differentiates depends on flags computed from its data.',observe=['ADFun::Jacobian','ADFun::Hessian','ADFun::ForOne','ADFun::RevOne','ADFun::RevTwo'])
OP='include/cppad/local/optimize/'
prop('P09','Optimization does not change the function',
 'After ADFun::optimize, for every option, every value of the independent variables and every value of the dynamic parameters the recording computes the same dependent variables and derivatives. Every operator, parameter and VecAD vector that a dependent variable needs (through any kind of argument, atomic calls included) is kept; an operator or dynamic parameter is replaced by an earlier one only if that one denotes the same operation on the same operands; every kept operator is recorded again with the new addresses of its own operands, in order; a cumulative summation adds and subtracts exactly the terms it replaces; a conditional skip lists only operators that no other result needs, and is placed after its operands are known; dependent parameters keep their operation and operands.',
 ['programs','inputs'],'every operator of the tape, every dynamic parameter operator, every mask of a conditional expression, every operator state of an atomic call, every path of one step of each pass',
 'The passes combine: a mistake shows only for a recording in which a particular operator, operand kind and neighbouring operators meet, evaluated at another point or with other dynamic parameters than the recording. Tests optimize a few dozen functions.',
 [OP],[('passes','get_op_usage.hpp, get_par_usage.hpp, get_op_previous.hpp, match_op.hpp, get_dyn_previous.hpp, get_cexp_info.hpp, record_csum.hpp, record_vp/pv/vv.hpp, optimize_run.hpp in '+OP)],
 'path-sensitive value flow of one step of every optimizer pass, specialised for each operator, against the operator table',
 'One iteration of each pass from an arbitrary state; the loop-carried facts (usage flags, old-to-new maps, match table) are the invariants each step is checked to preserve. Recorder, player and sets are opaque. Trusted: clang, the irx specialiser, the walker rules/pathx.py, the operator table. Code under NDEBUG only.',observe=['ADFun::optimize'])
prop('P14','Copy, assignment, swap, move and conversion carry over the whole state',
 'After an assignment, copy, swap, move or conversion the target holds every part of the state of the source: every member of ADFun (recording, Taylor coefficients and their orders, directions, sparsity patterns, options, comparison settings, subgraph information), player, recorder, the set vectors, sparse_rc, sparse_rcv, the vector classes, and their elements; a copied source is unchanged, a swapped one holds the old state of the target; base2ad and the transfer of a finished recording to a function keep everything that does not depend on the base type; assigning an object to itself changes nothing.',
 ['histories','objects'],'every member of every class in the list, every path of its copy, assignment, swap, move and conversion operations',
 'A member that is left out only shows in a later use of the copied object that depends on it; tests copy a few functions and use them once.',
 ['include/cppad/core/ad_fun.hpp','include/cppad/core/fun_construct.hpp','include/cppad/core/base2ad.hpp','include/cppad/local/play/player.hpp','include/cppad/local/play/dyn_player.hpp','include/cppad/local/sparse/list_setvec.hpp','include/cppad/local/sparse/pack_setvec.hpp','include/cppad/local/sparse/svec_setvec.hpp','include/cppad/local/subgraph/info.hpp','include/cppad/utility/sparse_rc.hpp','include/cppad/utility/sparse_rcv.hpp'],
 [('special members','core/fun_construct.hpp, core/ad_fun.hpp, local/play/*.hpp, local/sparse/*_setvec.hpp, utility/sparse_rc*.hpp, utility/vector*.hpp, local/pod_vector.hpp')],
 'byte-wise must dataflow over the LLVM IR of every special member against the record layouts of the compiler; element ranges of copy loops',
 'Members are taken from the record layout, so a new member is an obligation at once. Exempt members are listed with reasons in rules/c_state.py (scratch buffers, caches that are rebuilt, the name of a function under base2ad). Trusted: clang, its record layouts.',observe=['ADFun::operator=','ADFun::swap','ADFun::base2ad','sparse_rc','sparse_rcv','CppAD::vector'])
prop('P15','A sparsity pattern or sparse matrix object always describes exactly the entries that were put in it',
 'A sparse_rc (sparse_rcv) object reports exactly the size and the entries given to it by its constructor, resize, set and push_back, in order; a cached row or column major ordering is never older than the entries; orderings are sorted by row then column (column then row); two patterns are equal exactly when they have the same set of entries, whatever their order and whichever orderings are cached; a matrix shows the pattern it was built with and the value last set for each entry.',
 ['histories','inputs'],'every public member function of both classes, every path, every combination of cached orderings',
 'A stale ordering only shows for a sequence that computes the ordering, changes an entry and asks again; tests use each object once.',
 ['include/cppad/utility/sparse_rc.hpp','include/cppad/utility/sparse_rcv.hpp'],[('pattern and matrix','include/cppad/utility/sparse_rc.hpp, include/cppad/utility/sparse_rcv.hpp')],
 'typestate of the cached orderings, effect summaries of the element writes with affine index analysis, conditional constant propagation of the comparison for each combination of cached orderings',
 'The element vectors are opaque (SizeVector concept). Trusted: clang, the affine analysis rules/aff.py.',observe=['sparse_rc::set','sparse_rc::push_back','sparse_rc::row_major','sparse_rc::operator==','sparse_rcv'])
prop('P16','The vector classes own their storage and keep their elements',
 'CppAD::vector, vectorBool, pod_vector and pod_vector_maybe never hold more elements than their memory block has room for; a block is returned to the allocator exactly once, only after its elements were carried over and destroyed, and never used again; the capacity is that of the block; resize, extend, push_back and push_vector give the documented size, keep the old elements (where documented) and store the new ones behind them; element i of a vectorBool is one and the same bit for every access; create_array and delete_array construct and destroy each element once.',
 ['histories','inputs'],'every operation that changes the size of a vector, every path, every size and capacity',
 'An error in a growth path shows only for the sequence of sizes that meets the capacity limit of a block, and then as corruption elsewhere.',
 ['include/cppad/local/pod_vector.hpp','include/cppad/utility/vector.hpp','include/cppad/utility/vector_bool.hpp','include/cppad/utility/thread_alloc.hpp'],[('vectors','include/cppad/local/pod_vector.hpp, include/cppad/utility/vector.hpp, include/cppad/utility/vector_bool.hpp'),('arrays','create_array and delete_array in include/cppad/utility/thread_alloc.hpp')],
 'typestate of memory blocks along every path over the LLVM IR, loops summarised by the range of elements they touch',
 'The allocator is opaque: get_memory returns a new block of at least the requested size. Trusted: clang, the affine facts of rules/c_store.py.',observe=['CppAD::vector','vectorBool','CPPAD_TESTVECTOR'])
prop('P17','The abs-normal form represents the function',
 'After f.abs_normal_fun(g, a) the functions satisfy g(x, a(x)) = (y, z) and f(x) = y: the recording of g is that of f operator by operator with the new addresses of the same operands (every operator kind, comparison, print, VecAD, discrete, conditional expression, cumulative summation and atomic call included), with each absolute value replaced by one more independent variable; the parameters, dynamic parameters and VecAD vectors of g are those of f, in the same order; the independent variables of g are x then the absolute values, its dependents are y then the arguments of the absolute values, and the dependents of a are the results of the absolute values of f.',
 ['programs','inputs'],'every operator of the tape, every dynamic parameter operator, every mask of a conditional expression and of a print operator, six layouts of a cumulative summation, every path of one step of each pass',
 'An operator that is dropped or recorded with the wrong operand only matters for a function that uses it after, before or inside an absolute value; the tests of abs_normal_fun use a handful of arithmetic operators.',
 ['include/cppad/core/abs_normal_fun.hpp'],[('abs-normal form','include/cppad/core/abs_normal_fun.hpp')],
 'path-sensitive value flow of one step of every pass of abs_normal_fun, specialised for each operator, against the operator table; index ranges of the loops that copy parameters and set the variables',
 'One iteration of each pass from an arbitrary state; player, recorder and iterator are opaque. Atomic functions among the dynamic parameters are excluded by the documentation. Code under NDEBUG only.',observe=['ADFun::abs_normal_fun'])
prop('P18','A function object always describes its present recording',
 'After Dependent, the constructors, optimize (with and without val_graph), from_graph, from_json and abs_normal_fun replace the recording of a function object, everything the object derives from its recording describes the new one: number of variables, operator and load tables, subgraph information and dependent parameter flags have its dimensions; Taylor coefficients and forward Jacobian sparsity patterns of the old recording are gone or recomputed. What does not depend on the recording (nan checking, function name, comparison settings, values of the dynamic parameters when it is only optimized) is kept.',
 ['histories'],'every routine that replaces the recording, every member that depends on it, every path',
 'A stale member shows only when the object is used for something else before and after its recording is replaced; tests build an object, replace its recording once and evaluate it.',
 ['include/cppad/core/optimize.hpp','include/cppad/core/dependent.hpp','include/cppad/core/abs_normal_fun.hpp','include/cppad/core/graph/from_graph.hpp','include/cppad/local/val_graph/val2fun.hpp','include/cppad/local/val_graph/val_optimize.hpp','include/cppad/core/new_dynamic.hpp'],
 [('replacing the recording','core/dependent.hpp, core/optimize.hpp, core/abs_normal_fun.hpp, core/graph/from_graph.hpp, local/val_graph/val2fun.hpp, local/val_graph/val_optimize.hpp')],
 'must dataflow of the content of every member of the function object, members taken from the record layout of the compiler, with the recording as the reference',
 'The recorder and the player are opaque; the size of a container is tracked symbolically as the query that gave it. Trusted: clang, its record layouts.',observe=['ADFun::optimize','ADFun::Dependent','ADFun::from_graph','ADFun::abs_normal_fun','ADFun::new_dynamic'])
prop('P19','The AD graph of a function and the function it came from compute the same',
 'to_graph turns a recording into an AD graph with the same meaning, and from_graph turns a graph into a recording with the same meaning: every operator becomes the operator (or the operators) with the same function and the same operands in the same order, whatever combination of variables, dynamic parameters and constants its operands are; independent dynamic parameters, independent variables, constants, results and dependent variables keep their nodes; texts, discrete functions and atomic functions (name, call_id, argument and result types) stay attached to the operators that use them; and walking over the operators of a graph reads every operator and its arguments where they were put. Equality of parameters with nan, VecAD vectors and atomic_two functions, which graphs do not have, are outside.',
 ['inputs'],'every operator and every type of its operands, for graphs and recordings of any length and order',
 'Tests convert a handful of small functions; the operators times the types of their operands are hundreds of cases, and mistakes in one of them leave all the others right.',
 ['include/cppad/core/graph/to_graph.hpp','include/cppad/core/graph/from_graph.hpp','include/cppad/core/graph/cpp_graph.hpp','include/cppad/local/graph/cpp_graph_itr.hpp'],
 [('conversion','core/graph/to_graph.hpp, core/graph/from_graph.hpp'),('iterator over the operators','local/graph/cpp_graph_itr.hpp')],
 'path-sensitive dataflow of one operator at a time through the conversion loops: the graph operators, tape operators, dynamic parameters and constants recorded on every path are compared with a table of what each operator means',
 'An operator at a time; the loops over arguments are unrolled up to three, over results up to two. The recorder is opaque (P11 and P13 decide what it records). Trusted: clang.',observe=['ADFun::to_graph','ADFun::from_graph','cpp_graph_itr::set_value','cpp_graph::begin'])

prop('P20','The JSON text and the C source of a function say what the function computes',
 'to_csrc writes C source that computes the function: every graph operator becomes the C expression (or call, or count of a changed comparison) with the meaning of the operator, of the nodes that are its arguments and in their order, stored at the node of its result; independent values, constants (with all their digits), results and dependent values are at the nodes of the graph, there is an array element for every node, the sizes of the arguments are tested, and a failing atomic function makes the function fail; azmul and sign have the values they have in CppAD. to_json writes every part of the graph in the documented order, every operator with its code, its texts or its function, its number of results and all its arguments; from_json reads exactly the parts that to_json writes, for every operator, and stores each of them where the graph has it. Names and numbers of arguments in the table of graph operators agree with the operators. Texts and names that contain quotes are outside.',
 ['inputs'],'every graph operator, for graphs of any size',
 'Tests write and compile a few small functions; an error for one operator, one number of arguments, the second result or the second name shows only in functions that use them.',
 ['cppad_lib/csrc_writer.cpp','cppad_lib/json_writer.cpp','cppad_lib/json_parser.cpp','cppad_lib/cpp_graph_op.cpp','include/cppad/core/to_csrc.hpp','include/cppad/core/graph/to_json.hpp','include/cppad/core/graph/from_json.hpp'],
 [('C source','cppad_lib/csrc_writer.cpp'),('JSON text','cppad_lib/json_writer.cpp, cppad_lib/json_parser.cpp'),('operators','cppad_lib/cpp_graph_op.cpp')],
 'dataflow of the strings that are built and of the tokens that are read: the text of every operator is put together on every path with a placeholder for every run-time value, parsed with a grammar for the C (or JSON) subset, and compared with the meaning of the operator; the sequence of reads of the parser is compared with the sequence of parts of the writer',
 'An operator at a time, with 1, 2, 3 and 7 arguments where the number is not fixed; loops are unrolled that often. print and the previous atomic interface have no C source (documented). The characters of the JSON lexer and iostream formatting are trusted. Trusted: clang.',observe=['ADFun::to_csrc','ADFun::to_json','ADFun::from_json'])
prop('P21','A call of an atomic function inside a recording is exactly the function the user wrote',
 'Recording a call of an atomic function writes the identity of the function, the call identifier, the argument and result sizes, every argument in order (variable, dynamic or constant parameter, with its value) and every result in order, once; results are variables exactly when they depend on variables, dynamic parameters when they depend on dynamic ones and constants otherwise, with the values the function computed. When the recording is used, every mode (zero order and higher order forward, forward in an AD type, reverse, forward and reverse Jacobian and Hessian patterns, dependency) calls the corresponding function of the user, of the interface the object has, with the arguments, types, Taylor coefficients, partials, selections and orders of that call, puts back just the results for variables, accumulates partials instead of replacing them, and applies the patterns the user returns to the right variables; a user function that reports failure, is not defined or whose object was deleted is an error and never silently ignored.',
 ['inputs','programs','histories'],'every mode, every mixture of constant, dynamic and variable arguments and results, of any number, for atomic_base (two), atomic_three and atomic_four',
 'Tests have a few atomic functions with mostly variables; a mistake for one kind of argument in one mode of one interface appears only with that mixture.',
 [VO+'atomic_op.hpp',SW+'call_atomic.hpp','include/cppad/core/atomic/three/','include/cppad/core/atomic/four/','include/cppad/local/record/put_var_atomic.hpp','include/cppad/local/record/put_dyn_atomic.hpp'],
 [('operators of a call',VO+'atomic_op.hpp'),('dispatch',SW+'call_atomic.hpp'),('patterns','include/cppad/core/atomic/four/devel/{jac,hes}_sparsity.hpp'),('recording a call','include/cppad/core/atomic/{three/afun,four/call}.hpp, include/cppad/local/record/put_{var,dyn}_atomic.hpp')],
 'path-sensitive value and memory dataflow over the type-checked IR of one graph operator at a time (AFun, Funap, Funav, Funrp, Funrv) for every state of the call, of the dispatch for every interface, and of the routines that record a call; compared with a table of what each must read, pass and write',
 'One operator of a call at a time from an arbitrary state: loops over orders and directions are symbolic; patterns with up to two entries and calls with up to two arguments and two results (larger ones repeat the same step). What the user function computes is outside. The retired interface atomic_one and chkpoint are outside. Trusted: clang.',observe=['atomic_four','atomic_three','atomic_base','ADFun::Forward','ADFun::Reverse'])
prop('P22','An element of a VecAD vector always is what was last stored there, in every mode',
 'Each use of an element of a VecAD vector y[x], with x an AD object, records one load with the vector, the index and the kind (variable or parameter) of the index, and each assignment to it records one store with the vector, the index, the value and their kinds; the vector is put on the tape once, with the values it has at that time, when it is first used with an index that depends on the independent values. Objects of an earlier recording count as constants. When the recording is used, a load gives the value (and every Taylor coefficient, of any order and direction, and every partial in reverse mode) of what was last stored at the index the present independent values give: the variable or the parameter that was stored, and the initial value when nothing was. Operations and comparisons with elements are those of the values loaded. An index out of range is reported as an error where the debug build promises that.',
 ['inputs','histories'],'every kind of vector, index and value, every order, direction and mode, and every history of stores',
 'Tests access a few elements with variable index; parameters stored over variables, dynamic or stale indices, several orders or directions and reverse through a load are combinations they do not have.',
 ['include/cppad/core/vec_ad/vec_ad.hpp',VO+'load_op.hpp',VO+'store_op.hpp','include/cppad/local/record/put_var_vecad.hpp',SW+'forward_0.hpp',SW+'forward_any.hpp',SW+'forward_dir.hpp',SW+'reverse.hpp'],
 [('recording of accesses','include/cppad/core/vec_ad/vec_ad.hpp, include/cppad/local/record/put_var_vecad.hpp'),('load and store in the sweeps',VO+'{load_op,store_op}.hpp, '+SW+'{forward_0,forward_any,forward_dir,reverse}.hpp')],
 'path-sensitive value and memory dataflow over the type-checked IR of each recording routine (for every combination of kinds of operands) and of one load or store operator in each sweep, compared with a table of what each must read, write and record',
 'One access or operator at a time from an arbitrary state of the vector; vectors of two elements in the recording routines. Sparsity and dependency of loads and stores belong to P05, the optimizer to P14. Trusted: clang.',observe=['VecAD','ADFun::Forward','ADFun::Reverse'])
prop('P23','A sparse derivative driver returns exactly the requested entries',
 'sparse_jac_for, sparse_jac_rev, sparse_hes and the drivers SparseJacobian and SparseHessian are built on evaluate at the point they are given, and after a call the value of every entry of the subset is the derivative with that row and column: each sweep uses the sum of the unit vectors of one color (several colors for several directions), the value of an entry is taken from the sweep of its color, at its row (or column), direction and order, and stored at the position of the entry; entries that no sweep computes are zero. The coloring of the kind the user asks for is given the pattern by columns for forward mode and by rows for reverse mode, with the indices in the matching order, and is kept in work and used again in the next call. The number of sweeps is returned.',
 ['inputs','histories'],'every coloring of three components (components without a color included), every assignment of entries to colors, one, two and five directions at a time, empty and reused work',
 'Tests use a few patterns whose colorings are regular; a mix-up shows for subsets that are not in color order, a last group of directions that is smaller, colors that are not used, or a second call.',
 ['include/cppad/core/sparse_jac.hpp','include/cppad/core/sparse_hes.hpp','include/cppad/core/sparse_jacobian.hpp','include/cppad/core/sparse_hessian.hpp'],
 [('drivers','include/cppad/core/{sparse_jac,sparse_hes,sparse_jacobian,sparse_hessian}.hpp')],
 'path-sensitive value and memory dataflow over the type-checked IR of each driver, with sweeps, patterns and colorings opaque: on every path the content of each direction, the sweep, index and entry of each value that is stored, and the conditions on the color of the entry, are compared with what the property says',
 'Dimensions 3 by 2, up to two (thorough: three) entries, all colorings; rows, columns and order of the entries are symbolic. What the sweeps compute is P01 to P04 and P08; that a coloring is valid for the pattern is outside. Trusted: clang.',observe=['ADFun::sparse_jac_for','ADFun::sparse_jac_rev','ADFun::sparse_hes','ADFun::SparseJacobianForward','ADFun::SparseJacobianReverse','ADFun::SparseHessian'])
prop('N01','Numerical routines reach their stated accuracy',
 'Runge45, Rosen34, OdeGear, OdeErrControl, RombergOne, RombergMul, LuSolve and LuRatio return results within their documented order of accuracy or error estimate.',
 ['inputs'],'every ODE, integrand and matrix','Accuracy depends on the function being integrated and on rounding.',
 ['include/cppad/utility/'],[('ODE, Romberg and LU utilities','include/cppad/utility/')],'','',na='The error of an approximation and of rounding are run-time quantities of the user\'s function; no static argument over the source bounds them without a numerical analysis of that function.')
prop('N02','Optimizing and coloring terminate within reasonable time and memory',
 'optimize, the sparse drivers and their colorings use time and memory that is nearly linear in the size of the recording and the pattern.',
 ['inputs'],'every recording and pattern','Costs show only for large recordings.',
 ['include/cppad/local/optimize/','include/cppad/local/color_general.hpp'],[('optimizer','include/cppad/local/optimize/')],'','',na='Cost of heuristics (hash collisions, graph colorings) over run-time data; a static bound would have to bound those data.')
prop('N03','Results do not depend on the schedule of threads',
 'Programs that follow the rules for multi-threading compute the same values under every schedule.',
 ['schedules'],'every schedule and thread numbering','Only some schedules occur in a test.',
 ['include/cppad/utility/thread_alloc.hpp'],[('thread_alloc','include/cppad/utility/thread_alloc.hpp')],'','',na='The thread number and parallel predicate are functions supplied by the user; absence of races depends on run-time facts about them (distinct numbers, sequential set-up) that the source of the library does not determine.')

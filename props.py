#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run: python3 props.py)."""
import json
import os

ROOT = os.path.dirname(os.path.abspath(__file__))
PROPS = []
NA = []


def P(id, title, statement, over, text, why, files, mechanism, technique, note, level='other', state=None, observe=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism,
                      technique=technique, note=note, level=level, state=state, observe=observe))


def na(id, title, statement, over, text, why, files, mechanism, reason):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism, state=None, observe=None, na=reason))


VN = ('Trusts rustc MIR construction, the std/anyhow summaries in engine/models.py and the engine itself. Analysed on the f64 instantiation. ')

L = 'gmatlib/src/lib.rs'
TR = 'gmatlib/src/trait_impls.rs'

P('G01', 'Matrix indexing is bounds-checked on both indices',
  'Reading or writing element (i, j) of a matrix reaches exactly the element in row i and column j when i is less than the row count and j is less than the column count. '
  'Any other index pair panics; it never reads or overwrites an element belonging to another row.',
  ['inputs'], 'every shape (including empty matrices) and every pair of indices, for reads and for writes',
  'Unit tests index a handful of valid positions of small identity matrices; a column index past the row end that still falls inside the storage is silent.',
  [TR], [('Index/IndexMut for Matrix', TR)],
  'value-numbering dataflow on MIR; bounds entailment per path and instantiated index summaries',
  VN + 'Bounds entailment and the reached element are decided symbolically for every shape; in addition every index pair around shapes up to 4x4.')

P('G02', 'Constructors produce well-formed row-major matrices',
  'Every constructor yields a matrix with the requested numbers of rows and columns and exactly rows*columns elements, with the specified contents (zeros, identity, or the given values in row-major order); '
  'building from a vector whose length is not a multiple of the column count is refused with an error. Cloning, iterating and converting back to a vector give the same elements in the same order, and the reported dimensions are those requested.',
  ['inputs'], 'every dimension and every vector of elements',
  'The doc tests build one or two matrices per constructor, all of them square or trivially small.',
  [L, TR], [('Matrix::new/new_identity/from_vec/from_row_vec/from_col_vec', L)],
  'value-numbering dataflow with loop recurrences; summaries instantiated on all small shapes',
  VN + 'Shapes bounded by 4x4 (vectors up to 8 elements); entries are free.')

P('G03', 'Operations on mismatched shapes are refused',
  'Multiplying, augmenting, adding or subtracting matrices whose shapes do not fit, taking the trace or inverse of a non-square matrix, and row operations or subsets that name a row or column outside the matrix, and subsets whose first corner comes after the second, are always refused: '
  'with the documented error where the operation returns a result, otherwise with a panic. A refused operation that returns an error leaves its operands unchanged, and fitting shapes are never refused.',
  ['inputs'], 'every pair of operand shapes and every row/column argument',
  'Tests only use matching shapes; a guard on the wrong dimension goes unnoticed on square operands.',
  [L, TR], [('shape guards of multiply_matrix, augment_with, trace, try_inplace_invert, Add/Sub', L)],
  'value-numbering dataflow; refusal path selected exactly on mismatched shapes',
  VN + 'All pairs of 7 shapes up to 3x3, plus 4x5/5x4 for the square-only operations.')

P('G04', 'Transpose, augment, subset and row swap place every element correctly',
  'The transpose holds element (i, j) at (j, i); augmenting appends the right operand\'s columns after the left operand\'s in every row; a subset holds exactly the elements between the two given corners, both included; swapping two rows exchanges those rows and moves nothing else. '
  'Operands of the operations that return a new matrix are unchanged.',
  ['inputs'], 'every shape, square or not, and every choice of rows and corners',
  'The examples use identity or symmetric matrices, on which several misplacements (for instance swapping columns instead of rows) are invisible.',
  [L, TR], [('transpose, augment_with, BitOr, subset, inplace_row_swap', L)],
  'value-numbering dataflow; position-by-position comparison of instantiated summaries',
  VN + 'Shapes bounded by 4x4; entries are pairwise distinct free variables.')

P('G05', 'Matrix arithmetic computes its algebraic definition',
  'Products, sums, differences, scalar multiples, traces and the in-place row operations (scaling a row, adding a possibly scaled row to another) give on every entry the value of their algebraic definition, for owned and borrowed operands alike. '
  'Nothing but the result or the named row changes.',
  ['inputs'], 'every conforming shape and all entries',
  'Tests check one or two numeric examples, mostly identities; a transposed index or a dropped term cancels on them.',
  [L, TR], [('multiply_matrix, Add, Sub, Mul, AddAssign, SubAssign, inplace_*', L)],
  'value-numbering dataflow; polynomial-identity comparison (random interpretation) of instantiated summaries',
  VN + 'Shapes bounded by 4x4; identities are decided over a 61-bit prime field, not in floating point.')

P('G06', 'Closed-form inverses are inverses',
  'Inverting a non-singular matrix of size 1 to 4 in place succeeds and leaves a matrix whose product with the original is the identity (up to rounding). '
  'A singular matrix of these sizes is refused with the error for its case (zero value for 1x1, zero determinant otherwise) and left unchanged.',
  ['inputs'], 'all entries of 1x1 to 4x4 matrices',
  'The only inversion example is a single small matrix; a wrong cofactor or determinant term needs specific non-symmetric entries to show.',
  [L], [('try_inplace_invert and its size dispatch', L)],
  'value-numbering dataflow; rational-function identity (random interpretation) on instantiated summaries',
  VN + 'Exact arithmetic (61-bit prime field): says nothing about conditioning or rounding.')

P('G07', 'Inverses by elimination are inverses or errors',
  'Inverting a matrix of size 5 or more either leaves a matrix whose product with the original is the identity (up to rounding) or returns an error; a pivot is never divided by when it is zero. '
  'Rank-deficient matrices are always refused, and matrices of full rank are always inverted, whichever of their entries are zero.',
  ['inputs'], 'all entries and sizes of square matrices from 5x5 up',
  'No test inverts a matrix larger than 4x4 with a zero pivot or a dependent row.',
  [L], [('try_inplace_invert for n > 4', L)],
  'value-numbering dataflow with nested loop recurrences; rational-function identity on instantiated summaries',
  VN + 'Sizes 5 and 6 (thorough: up to 8) in exact arithmetic; matrices of doubles, with small pivots at sizes 5 and 6, larger ones at 12, 33 and around the literals of the code.')


GF, QF, NF = 'gmatlib/src/ffi.rs', 'geqslib/src/ffi.rs', 'nexsys/src/ffi.rs'
P('F01', 'C functions respect ownership of the handles they are given',
  'A C function that borrows a handle never frees, duplicates or returns the object behind it, whether it succeeds, fails or panics inside; a handle that is consumed (the free functions, build_system, solve_system) is freed exactly once on every exit. '
  'A const handle\'s object is not modified, and every handle or string returned is a fresh object of the documented type that the caller owns.',
  ['inputs', 'crash points'], 'every exported C function, every argument, and every exit including panics inside library calls',
  'Double frees and leaks appear only on particular error paths and corrupt memory silently.',
  [GF, QF, NF], [('leak_object / destroy_object / Box::from_raw in the C functions', GF), ('C functions of geqslib', QF), ('C functions of nexsys', NF)],
  'ownership dataflow over MIR with an abstract heap, including unwinding edges',
  'Covers every path of each exported function; library calls are opaque but may unwind when the callee can panic. Callers passing invalid pointers are out of scope.')
P('F02', 'gmatlib\'s C functions compute what their Rust operation does',
  'Each gmatlib C function performs exactly its documented operation on the objects behind its handles with its arguments in the documented roles: creation, indexing, row operations, products, augmentation, subsets, trace, transpose, inversion, cloning. '
  'Each status code or sentinel is returned exactly when its documented condition holds, and no panic leaves a function that reports failures.',
  ['inputs'], 'every exported gmatlib function, every shape, index and scalar',
  'The tests call no C function; argument order and statuses of failing calls are never exercised.',
  [GF], [('exported C functions', GF)],
  'value-numbering dataflow of each exported function compared with its specification per outcome',
  'Decided on the whole call graph below each C function; matrix contents are compared by random interpretation over GF(2^61-1) at finitely many shapes.')


P('F03', 'geqslib and nexsys C functions forward and report faithfully',
  'Each C function of geqslib and nexsys performs exactly its documented library operation with every argument in its documented role and every number unchanged. '
  'A success is reported as the documented handle, status or text (solve_equation: variable=value; solve_system: one variable=value line per variable), '
  'a failure or a panic inside as the documented failure value (null, or -1), and no panic ever unwinds into the C caller.',
  ['inputs', 'crash points'], 'every exported function, every text and number, every result of the library operation including panics',
  'No test calls a C function; statuses of failing calls and argument roles are never exercised.',
  [QF, NF], [('exported C functions of geqslib', QF), ('exported C functions of nexsys', NF)],
  'value-numbering path summaries with opaque library operations, including unwinding edges',
  'All paths of each function; numbers are compared as terms, texts by the conversions applied to them. The exact layout of the nexsys result text is not fixed.')
P('F04', 'The C headers declare the C interface that is exported',
  'gmatlib.h and geqslib.h are valid C and declare exactly the exported C functions of their library, each with the parameter count, kinds and order and the result kind of the exported function. '
  'Their status enumerators have the values the functions return.',
  ['inputs'], 'every exported function and every declaration and enumerator of the two headers',
  'The headers are not compiled by the build or the tests; a mismatch is silent undefined behaviour in every C caller.',
  ['gmatlib/gmatlib.h', 'geqslib/geqslib.h', GF, QF], [('C declarations', 'gmatlib/gmatlib.h'), ('C declarations', 'geqslib/geqslib.h')],
  'comparison of the C syntax tree of the headers with compiler signatures of the exports',
  'Only the C view of the headers; the C++ wrapper classes are not covered.')


SH = 'geqslib/src/shunting.rs'
CX = 'geqslib/src/context.rs'
VV = 'geqslib/src/variable.rs'

P('E01', 'A well-formed expression denotes its conventional value',
  'Evaluating a well-formed expression gives the value of its conventional reading: exponentiation binds tightest and associates to the right, then unary minus, then multiplication and division, then addition and subtraction, both associating to the left; '
  'parentheses and function calls group first, function arguments are passed in order and may be arbitrary expressions, and blanks do not matter.',
  ['inputs'], 'every well-formed expression over numbers, constants, variables and functions',
  'The tests evaluate a few fixed expressions; wrong grouping shows only for particular combinations of operators, signs, parentheses and calls.',
  [SH], [('tokenizer, eqn_to_postfix, eval_str_with_context', SH)],
  'value-numbering summary of tokenizer, postfix conversion and evaluation; value terms compared with a reference reading',
  VN + 'Operand values and functions are free (uninterpreted). Expressions: all operator/sign patterns up to two operators in the thorough tier, sampled at three operators, one level of parentheses and nested calls.')

P('E02', 'Malformed expressions are refused with an error',
  'Evaluating an expression with unbalanced parentheses, an unknown name or token, nothing to evaluate, a missing operand, or superfluous operands returns an error, and so does a division by a value that is zero (as DivisionByZero). Evaluation never panics.',
  ['inputs'], 'every text given as an expression',
  'Tests cover mostly valid expressions; each malformed shape takes its own path through the tokenizer and the operand stack.',
  [SH, 'geqslib/src/errors.rs'], [('error exits of tokenizer, eqn_to_postfix, eval_rpn_expression', SH)],
  'value-numbering summary with every panic an explicit outcome; selected outcome must be an error',
  VN + 'About 130 malformed shapes, each also with blanks inserted; that no path unwinds is decided over all paths of the evaluator.')

P('E03', 'Predefined functions and constants denote what their names say',
  'Every predefined function (sin, cos, tan, arcsin, arccos, arctan, sinh, cosh, tanh, ln, log10, log, abs, if) computes the function of its name on its arguments in order, pi and e are the mathematical constants, and if(a, op, b, x, y) gives x exactly when "a op b" holds for each of the six comparison codes (the code is the nearest integer of op), y otherwise.',
  ['inputs'], 'every predefined name and every argument',
  'No test calls most of the predefined functions; a name bound to a neighbouring function is not noticed.',
  [CX], [('new_context and the built-in functions', CX)],
  'value-numbering evaluation of the predefined name table; value terms of each built-in body compared with the function of its name',
  VN + 'Elementary functions of std are uninterpreted; operands are free. The six comparisons are instantiated on seven orderings each.')

P('E04', 'A variable never leaves its domain',
  'Assigning a value to a variable, or adding, subtracting, multiplying or dividing it in place, leaves it holding the resulting value when that lies within its minimum and maximum, and the nearer bound otherwise. The bounds themselves never change, and reading the variable gives its value.',
  ['inputs', 'histories'], 'every variable with a non-empty domain and every assigned value, including infinities',
  'The only tests assign values inside the domain.',
  [VV], [('Variable::set and the assignment operators', VV)],
  'value-numbering summaries with final contents of the variable; compared with the clamped value',
  VN + 'Six domains by fourteen values (by three current values for the operators), IEEE doubles; the NaN result of an operation is excluded.')


NR = 'geqslib/src/newton.rs'
SY = 'geqslib/src/system.rs'
GL = 'geqslib/src/lib.rs'

P('E05', 'A reported root is a root within the margin, or an error is returned',
  'When the single-variable or multivariate Newton-Raphson solver returns a solution, the residual there (its Euclidean norm for systems) and the last step are both at most the margin. '
  'Otherwise it returns an error: for a margin that is not positive, for a system without as many functions as unknowns, for an error of a function, and once the iteration limit is used up; it never iterates more often than the limit and never panics. '
  'It solves any linear function or well-conditioned linear system, from any guess, from a moderate one within the second iteration.',
  ['inputs'], 'every function or system, guess, margin and iteration limit',
  'The tests solve two or three friendly systems from nearby guesses; a weakened stopping test shows only where residual and step have very different sizes or signs.',
  [NR], [('newton_raphson', NR), ('multivariate_newton_raphson', NR)],
  'value-numbering summaries with loop recurrences and re-entered recursion, user functions uninterpreted; instantiated on functions with known roots',
  VN + 'About 600 single-variable and 170 multivariate instantiations (up to four unknowns, and linear systems of more) over IEEE doubles, guesses up to about 3e12; convergence on general functions is not decided.')

P('E06', 'An equation is solved for its single unknown, or refused',
  'Solving an equation given as text solves left side = right side for the one name that the context gives no meaning to, restricted to the given domain and starting from the given guess with the given margin and limit (1, unbounded, for the text-only form), and returns that name with the value found, which lies in the domain. '
  'An equation with no or several unknowns, without exactly one "=", or with a malformed side is refused with an error, and a failure of the solver is reported.',
  ['inputs'], 'every equation text, context, guess, domain, margin and limit',
  'Tests solve a few equations; forwarding of guess, domain, margin and limit and most refusals are never observed.',
  [GL, SH], [('solve_equation_with_context, solve_equation_from_str, compile_equation_to_fn', GL), ('get_legal_variables_iter', SH)],
  'value-numbering summary with the solver call opaque; its arguments and the closure passed to it compared with the equation',
  VN + 'Thirteen solvable equation shapes by three parameter sets, and 28 refused ones.')

P('E07', 'Systems account exactly for their equations and unknowns',
  'A system under construction takes an equation exactly when it is not yet fully constrained and the equation brings at most one new unknown, and says so in its result; a refused or malformed equation leaves it unchanged. Its unknowns are always exactly the names its equations leave undefined, '
  'it is fully constrained exactly when it has as many equations as unknowns, and only then can be built. Offering many equations fully constrains it exactly when some order of taking them does, each taken at most once. '
  'A built system is solved for exactly its unknowns, from their guesses, and the values reported lie within their domains; specifying a variable affects only that unknown and is refused for any other name.',
  ['inputs', 'histories'], 'every sequence of equations offered to a system, and every variable specified',
  'The tests build three small systems in one order each; the accounting breaks only for particular histories.',
  [SY, GL], [('SystemBuilder, System', SY), ('compile_equation_to_fn_of_hashmap', GL)],
  'value-numbering summaries of the methods (equations as closures over shared variable cells) instantiated along generated histories; final contents compared with a model of the accounting',
  VN + '90 histories of up to seven calls and 60 equation pools over at most five unknowns (400 and 200 in the thorough tier).')

P('E08', 'Compiled expressions agree with direct evaluation',
  'A function compiled from an expression gives, for every argument, the value of the expression with its variables set to the argument values limited to the variables\' domains, and an error where evaluation gives an error. Variables not assigned keep their value, names unknown to the expression\'s context are ignored, and assigning to a constant or function is an error. '
  'Compilation is refused for names without meaning, for malformed expressions, and, in the single-variable form, unless the context has exactly one variable.',
  ['inputs'], 'every expression, context and argument',
  'The doc tests call each compiled function once with values inside the domains.',
  [SH], [('compile_to_fn, compile_to_fn_of_hashmap', SH)],
  'value-numbering summaries of the compilers and of the closures they return, with variable cells shared between closure and postfix form',
  VN + 'Ten single-variable and eleven two-variable expressions by three domains and six to ten arguments.')


P('E10', 'A context holds what was last defined under each name',
  'After any sequence of definitions of functions, constants and variables, with or without a domain, a context holds under each name exactly what was last defined under that name, with the value, domain and number of arguments given there, and under no other name anything. '
  'Names are told apart by every character. A variable is on the whole real line unless a domain is given, and a definition never changes a variable handed out by an earlier one.',
  ['inputs', 'histories'], 'every sequence of definitions',
  'The tests define each name once; what a second definition of a name does to the first, and to its neighbours, shows only in a history.',
  [CX], [('ContextLike for ContextHashMap', CX)],
  'value-numbering summaries of the definition methods composed along generated histories; the whole table and every variable cell handed out compared after each step with a reference dictionary',
  VN + '52 histories of two to 45 definitions (190 in the thorough tier) over at most eleven names.')


DC, HT, FX, ND, EL, NL = ('neapolitan/src/' + x for x in ('dc_circuits.rs', 'heat_transfer.rs', 'flux_formulas.rs', 'modelling/node.rs', 'modelling/element.rs', 'lib.rs'))
NV = 'Trusts rustc MIR construction, the std/anyhow summaries in engine/models.py and the engine itself. '

P('N01', 'Every element carries the flux of its physical law',
  'From its input to its output node a resistor carries (Vi-Vo)/R, a conductor k(Ti-To) or, given length and conductivity, (k/l)(Ti-To), a convection interface h(Ti-To), and a current source or heat flux its given value, '
  'whatever the potentials and locks of the nodes. The element counts once as an output of its input node and once as an input of its output node, and leaves potentials and locks alone.',
  ['inputs'], 'every gain and every pair of node potentials',
  'Tests solve two circuits; element kinds they do not use, and laws that agree at their values, go unnoticed.',
  [DC, HT, FX, EL], [('element constructors and flux formulas', DC), ('heat transfer elements', HT)],
  'value-numbering summaries of the registered constructors and flux functions, compared with the laws as rational functions',
  NV + 'Identity of rational functions over free potentials and gains (not floating-point equality).')

P('N02', 'A node balances the fluxes of its inputs and outputs',
  'The flux discrepancy of a node is, component by component, the sum of the fluxes of its input elements less the sum of the fluxes of its output elements; it is zero without elements. '
  'The flux of an element is what its flux function gives for its input node, output node, gain and direction. An error of any flux is the error of the balance, and the flux of an element whose nodes no longer exist is an error.',
  ['inputs'], 'every number of elements, every flux and every number of components',
  'The two circuits tested have at most three elements per node and scalar potentials.',
  [ND, EL], [('GenericNode::get_flux_discrepancy', ND), ('GenericElement::get_flux', EL)],
  'value-numbering summaries with element fluxes abstract, instantiated over element counts and components',
  NV + 'Up to three inputs and three outputs with one to three components, and nodes of 17, 70 and more elements around the literals of the code; fluxes are free.')

P('N03', 'Sources fix one free node relative to the other and balance it',
  'A voltage source or temperature difference fixes exactly one node that was free, preferring its output, and is refused when both are fixed. The output potential is the input potential plus the difference, when the element is created and, whenever its flux is calculated, for any later potential of the driving node. '
  'The flux of the source balances the other elements of the driven node, and only the driving node counts it.',
  ['inputs'], 'every combination of fixed nodes, every difference, every potential and flux',
  'The tested circuit has a single source that drives its output from a fixed input; a source driving its input node is never exercised.',
  [DC, HT, FX], [('voltage_source', DC), ('temperature_delta', HT), ('observe_flux', FX)],
  'value-numbering summaries of constructor and flux function over shared node cells, for every lock combination',
  NV + 'One abstract element on each side of each node.')

P('N04', 'Study builders describe exactly the model they were told',
  'The default configuration offers the DC circuit and heat transfer models, one-component, with their documented elements. Adding nodes, configuring a node and adding an element change the model by exactly that. '
  'An element with a node not in the model, a second element type of the same name, and a builder for a model type not in its configuration are refused.',
  ['inputs'], 'every sequence of builder operations (each operation on any builder state)',
  'Tests build one model by the happy path.',
  [NL], [('NodalAnalysisStudyBuilder, NodalAnalysisStudyConfigurator', NL)],
  'value-numbering summaries of each builder operation, compared with the model change it stands for',
  NV + 'Operations are checked one at a time on an empty and a populated builder, which determines sequences.')

P('N05', 'A study solves the balance of every free node and reports the solution',
  'run_study solves, with the given margin and iteration limit, one balance equation for each component of each node that is neither fixed nor driven by a source, evaluated at the potentials the solver asks for with driven nodes following their drivers. '
  'It reports the solved potentials, the configured potentials of fixed nodes, the followed potentials of driven nodes, and under its type and index the flux of every element at that solution. Failures of element creation, of fluxes or of the solver are failures of the study.',
  ['inputs'], 'every model; solver, elements and potentials arbitrary',
  'Tests compare two solved circuits; a stale potential or a mislabelled element shows only in other topologies.',
  [NL], [('run_study', NL)],
  'value-numbering summaries of run_study and of the residual closures it builds, with elements and solver abstract',
  NV + 'Eight topologies of up to four nodes, one or two components, abstract passive and driving elements, free potentials; each residual is evaluated at free points.')

P('N06', 'Invalid models are reported as errors, never as panics',
  'A study of a model of unknown type, with an unknown element type, an element or configuration that names a node the model does not have, or a configured potential of the wrong dimension ends in an error. '
  'Every element constructor refuses a wrong number of gain values and nodes that no longer exist. The node helper functions report a dropped node as an error and otherwise read or change exactly what they name.',
  ['inputs'], 'every invalid model',
  'Tests only contain valid models.',
  [NL, DC, HT], [('run_study', NL), ('element constructors', DC)],
  'value-numbering summaries with panicking paths kept; the path selected by an invalid input must end in an error value',
  NV + 'Twelve kinds of invalid models, gain lists of zero to three values, and all combinations of dropped nodes.')


P('N07', 'Node potentials can be read while fluxes are computed',
  'Calculating a flux, a flux discrepancy, a lock state or a potential only ever reads nodes that others may be reading at the same time: the readers never borrow a node exclusively, '
  'no function computes a flux while it holds an exclusive borrow of a node, and no path borrows a node in a way that conflicts with a borrow it still holds.',
  ['inputs'], 'every path of every function that borrows a node, for every sharing of nodes between elements',
  'A conflicting borrow shows only for elements that share nodes in the right way (a source driving its input, a loop), and only at run time.',
  [NL, FX, ND], [('get_node_potential', NL), ('normal_flux, observe_flux', FX), ('get_flux_discrepancy', ND)],
  'typestate of RefCell guards over the event paths of value-numbering summaries',
  NV + 'Guards are identified by the node reference they were taken from; two references to one node are distinguished only by the rules on readers and flux computation.')


NP_, NC, NU_, NXL = 'nexsys/src/parsing/mod.rs', 'nexsys/src/parsing/conditionals.rs', 'nexsys/src/units/mod.rs', 'nexsys/src/lib.rs'
XV = ('Trusts rustc MIR construction, the std/regex/serde summaries in engine/models.py and engine/evalx.py, and the engine itself. ')

P('X01', 'Nexsys preprocessors rewrite exactly what they name',
  'Compiling Nexsys code removes comments, replaces every named constant and every unit conversion where it stands by its value, removes every const, keep and guess declaration, and changes nothing else of the text. '
  'Declared constants (just a number, exponents allowed) are added to the context with their value; domains and guesses are declared for their variable, each leaving the other as declared before or at its default (guess 1, unbounded). '
  'Unknown constants, units and constants that are not just a number are refused.',
  ['inputs'], 'every text, wherever the declarations and tokens stand and whatever names they are prefixes of',
  'Tests feed a few well-separated samples; a token that is a prefix of another, or a declaration that also occurs inside other text, is not among them.',
  [NP_], [('comments/consts/conversions/const_values/domains/guess_values', NP_), ('compile', NP_)],
  'value-numbering summaries (regex and string operations as terms, match loops as recurrences) instantiated on families of texts',
  XV + 'Families of generated texts per preprocessor (every shipped constant, every prefix pair of constants, nine variable names, eight number forms, four placements); conversion factors abstract.')

P('X02', 'An if block becomes one equation with the same meaning',
  'Every if/else block whose branches are equations or expressions (taken as = 0), possibly nested, is replaced by one equation that holds exactly when the first branch holds, where the condition is true, and exactly when the second branch holds elsewhere. '
  'All six comparison operators, negative right sides and names containing keywords keep their meaning, the remaining lines are unchanged, and blocks with a malformed operator or branch are refused.',
  ['inputs'], 'every block in the documented syntax, every nesting, every value of the variables',
  'Tests convert three blocks; a branch with a negative or compound right side, a nested block or an identifier such as "bend" changes the meaning silently.',
  [NC], [('conditionals', NC), ('format_conditional', NC)],
  'value-numbering summaries of the rewriting loops, instantiated on blocks; exact rational comparison of the produced equation with the branch it stands for',
  XV + 'Blocks over six operators, seven condition shapes, fifteen branch shapes, two levels of nesting and several blocks per text; equations compared at exact rational points.')

P('X03', 'Unit conversion factors are ratios of the magnitudes of the units',
  'convert(a, b) is the magnitude of a divided by the magnitude of b when both units measure the same quantity, so that converting there and back is the identity and converting through a third unit changes nothing; '
  'unknown units and pairs of different quantities are refused. Derived units (squares, cubes, products, quotients) have the magnitude their name says, and shipped units and constants have their physical values.',
  ['inputs'], 'every pair of units, base magnitudes arbitrary',
  'Tests convert two pairs; the derived units are generated in loops over hundreds of combinations.',
  [NU_, 'nexsys/src/units/units.json', 'nexsys/src/units/consts.json'], [('convert', NU_), ('unit_data and its generators', NU_)],
  'value-numbering summaries over a unit table with free magnitudes (prime field); shipped tables compared with an independent table',
  XV + 'Identities hold for arbitrary base magnitudes (random points of a prime field). Temperatures are ratios only, as in the code.')


P('X04', 'Nexsys solves every system it can, and reports only what a solver returned',
  'A system of equations that can be solved block after block (each block n equations in n new unknowns, which can be ordered so that each after the first brings at most one of them) is solved completely, in whatever order its lines stand, between whatever other lines. '
  'Every reported value is the constant given, or comes from one solver call on equations of the text, each used for one solution, with all values known by then, the declared guess and domain (default 1, unbounded), and the margin and limit given. '
  'Unknowns that cannot be determined are absent, the context afterwards holds the solution as constants, and the failure of an equation, system or preprocessor is the failure of the whole.',
  ['inputs'], 'every system of equations, order of its lines, and outcome of the solvers',
  'Tests solve two systems; which equations are taken together, and with which known values, depends on the order of lines and on the unknowns found before.',
  [NXL], [('basic_solve, try_solve_single_unknown_eqn, try_solve_subsystem_of_equations', NXL), ('solve_with_preprocessors', NXL)],
  'value-numbering summary of the solving loop, instantiated with abstract solvers whose values carry their provenance',
  XV + 'Systems of up to four blocks of up to four equations about the same unknowns, or of up to six that share only some of them, in random order with noise lines; equation contents abstract apart from the names in them. Solver calls are those decided by E05-E07.')

P('X05', 'The programs report failure, obey their options and keep their input',
  'nxc and neapolitan end with status 0 exactly when they solved their input and delivered the results, and with another status when the file, an option, the model, the solver or the output fails. '
  'They never write the file they were given as input; nxc writes a file exactly when asked to: the input name with its .nxs extension replaced by (or, without one, followed by) .txt; neapolitan writes the model name with .soln.json in place of .json. File contents, margin (precision) and iteration limit reach the solver as given, in any order of options, and the results contain every solved value. Without an input, or with an option whose value is missing, they say so instead of panicking, and nothing is solved or written.',
  ['inputs', 'crash_points'], 'every command line, and every failure of reading, parsing, solving, formatting or writing',
  'The programs have no tests at all.',
  ['nexsys/src/main.rs', 'neapolitan/src/main.rs'], [('main', 'nexsys/src/main.rs'), ('main', 'neapolitan/src/main.rs')],
  'value-numbering path summaries of both main functions with file system, arguments and solvers abstract; exit status, written path and solver arguments judged per path',
  XV + 'About 310 command lines and failure combinations select every path of the summaries.')


P('G08', 'Printed matrices show every element in its place',
  'The text of a matrix lists its elements row by row in order, each with its full value and separated from its neighbours, tells the elements of one row from the start of the next, and shows nothing, not even an empty place, that is not an element. Printing a matrix of any shape, also one without rows or columns, does not panic.',
  ['inputs'], 'every shape and contents',
  'No test prints a matrix.',
  [TR], [('Display for Matrix', TR)],
  'value-numbering summary of the formatter (its text a recurrence over rows and columns), instantiated on every small shape',
  VN + 'Shapes up to 4x4 (thorough: 7x7) and the empty ones; the writer never fails.')

P('N08', 'Saved models read back as the same model',
  'Saving a model stores its complete serialised form and leaves the builder as it was; a model that cannot be serialised is an error and leaves the text as it was. '
  'Every field of a model, node configuration and element is saved once, under the key of the published format, and read back into the same field whatever the order of the keys; unknown keys are ignored. '
  'Parsing a model reads such a text, the result of a study is saved with all its potentials and fluxes, and the example shipped is a model of the default configuration.',
  ['inputs'], 'every model and every order of keys',
  'One test saves a model and prints it; nothing is ever read back.',
  [NL, 'neapolitan/src/modelling/mod.rs', 'neapolitan/neapolitan_json/neapolitan_model_schema.json'], [('save_model', NL), ('Serialize, Deserialize, FromStr', 'neapolitan/src/modelling/mod.rs')],
  'value-numbering summaries of the derived serialisers and key and field readers (MIR after expansion), composed: emitted keys through the readers of the same type; keys compared with the published JSON schema',
  VN + 'JSON syntax itself is serde_json (trusted); non-finite numbers, which JSON cannot hold, are outside.')


na('E09', 'Newton iteration finds a root when one is near the guess',
   'Given a differentiable function with a simple root near the guess, the solvers converge to it within the iteration limit.',
   ['inputs'], 'every differentiable function and guess',
   'Tests try a few functions; convergence depends on the curvature and the domain of each function.',
   ['geqslib/src/newton.rs'], [('newton_raphson, multivariate_newton_raphson', 'geqslib/src/newton.rs')],
   'Convergence is a property of the runtime values of an arbitrary user function along the iteration (a contraction argument on its second derivative), over floating point: no static argument about this source can bound them. '
   'What the source does determine - that only converged points are returned, that the steps are Newton steps, that the limit is kept - is E05 and E06.')

na('G09', 'Matrix results are accurate to rounding',
   'Products, inverses and solutions differ from the exact result by no more than a small multiple of the unit roundoff times the condition number.',
   ['inputs'], 'every matrix',
   'Accuracy depends on conditioning and on the order of the operations for each matrix.',
   [L], [('try_inplace_invert', L)],
   'A forward error bound quantifies over runtime condition numbers; the elimination in this code base does not pivot on magnitude, so no bound holds for all inputs, and value-numbering treats arithmetic as exact. G05-G07 decide the algebra only.')


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            an = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mechanism']]}
            if p['state']:
                an['state'] = [{'name': a, 'meaning': b, 'where': c} for a, b, c in p['state']]
            if p['observe']:
                an['observe_at'] = p['observe']
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                                'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'], 'anchors': an}) + '\n')
    checks = []
    for p in PROPS:
        if 'na' in p:
            NA.append({'property': p['id'], 'reason': p['na']})
            continue
        checks.append({'property': p['id'], 'quick_cmd': 'python3 bin/check.py %s --tier quick' % p['id'],
                       'thorough_cmd': 'python3 bin/check.py %s --tier thorough' % p['id'],
                       'evidence_file': 'evidence/%s.json' % p['id'], 'technique': p['technique'], 'level': p['level'], 'level_note': p['note']})
    m = {'version': 1, 'setup_cmd': 'bash bin/setup.sh', 'checks': checks, 'not_applicable': NA,
         'notes': 'Every check re-extracts the MIR of /repo (content-hashed cache) and decides from it; nothing of /repo is executed.'}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    for p in PROPS:
        assert len(p['title']) <= 80, p['title']
    print(len(PROPS), 'properties,', len(checks), 'checks')


if __name__ == '__main__':
    main()

#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (development tool, not a check)."""
import json, pathlib, jsonschema
V = pathlib.Path(__file__).resolve().parent.parent
W = "components/core/wf/"
PY = "components/wrapper/pywrenfold/"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, technique=None, note=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None),
                  technique=technique, note=note))


BASE = ("Bounded random search: no absence proof. ")

prop("P01", "Building an expression preserves its mathematical value",
     "Constructing an expression through the symbolic API (arithmetic, powers, elementary functions, min/max, conditionals, relationals) yields an expression that has the same value as the mathematical input wherever that input is defined, for every assignment of values within each symbol's declared number set (principal branches). Automatic simplification never loses, adds or changes a value, and never turns a defined value into an undefined one or an error.",
     ["inputs"], "all expression trees over the operators and functions, all symbol number sets, all assignments",
     "Unit tests compare a few hundred hand-written simplifications with their expected form; wrong rewrites appear only for particular nestings (powers of products, branch cuts, sign of a base, like terms that merge) combined with particular assignments.",
     [W + "expressions/power.cc", W + "expressions/multiplication.cc", W + "expressions/addition.cc", W + "functions.cc", W + "number_set.cc", W + "boolean_expression.cc", W + "expressions/conditional.cc"],
     [("power::create", W + "expressions/power.cc"), ("multiplication_parts", W + "expressions/multiplication.cc"), ("addition_parts", W + "expressions/addition.cc"), ("function folding", W + "functions.cc"), ("determine_numeric_set", W + "number_set.cc")],
     ["wrenfold.sym constructors; structure of the resulting expression (type_name, args)"],
     "PBT: random expression trees, differential against an independent 160-bit evaluator",
     BASE + "Trusts mpmath; skips points on poles, branch cuts and undecidable ties.")

prop("P02", "Exact constants: correct result or explicit overflow error",
     "Arithmetic on integer and rational constants (sum, product, quotient, integer and rational powers, comparison, floor/abs/sign/min/max, factorized roots) yields exactly the rational or radical the mathematics prescribes, in lowest terms, or raises an arithmetic error when a 64-bit value cannot hold it; it never wraps, truncates or crashes. Combining exact and float constants follows IEEE double arithmetic, and zero division, complex infinity and undefined propagate as documented rather than yielding a finite number.",
     ["inputs"], "all 64-bit integers including extremes, all rationals, all doubles, all operations",
     "Tests use small literals; overflow, sign and reduction errors live at the extremes of the 64-bit range or in particular factorizations.",
     [W + "utility/checked_int.h", W + "integer_utils.h", W + "expressions/numeric_expressions.h", W + "expressions/power.cc", W + "expressions/relational.cc"],
     [("checked_int operators", W + "utility/checked_int.h"), ("rational normalization", W + "expressions/numeric_expressions.h"), ("prime factorization", W + "integer_utils.h")],
     ["repr/type of constant expressions returned by wrenfold.sym"],
     "PBT: differential against Python integers/Fractions and mpmath, boundary-biased generators",
     BASE + "Oracle is exact big-integer arithmetic.")

prop("P03", "Canonical form: identity, hashing, ordering and commutation",
     "Sums and products do not depend on the order in which exact operands are combined, nor on their grouping (numeric coefficients distributing over sums, and fractional powers of compound or rational bases, aside); structural equality is an equivalence consistent with hashing, and the canonical ordering is a strict total order consistent with equality. Rebuilding any expression from its own parts gives an identical expression.",
     ["inputs"], "all expressions, all operand permutations/groupings, all pairs and triples",
     "Laws over pairs/triples of expressions cannot be covered by examples; a wrong order or hash only shows when two particular subexpressions meet.",
     [W + "expressions/addition.cc", W + "expressions/multiplication.cc", W + "hashing.h", W + "ordering.cc", W + "utility/ordering.h"],
     [("order_struct", W + "expression.cc"), ("hash_struct", W + "expressions"), ("canonical sort of operands", W + "expressions/multiplication.cc")],
     ["Expr.is_identical_to, hash(), sym.compare, args"],
     "PBT: algebraic laws (permutation/regrouping, equivalence, total order, rebuild idempotence)",
     BASE + "Laws are checked on the public API only.")

prop("P04", "Derivatives and Jacobians equal the true derivative",
     "Differentiating any expression with respect to any symbol, any number of times and through any function, power, conditional, matrix or symbolic function, yields an expression whose value equals the mathematical derivative wherever the input is differentiable. Jacobians and matrix derivatives agree entry by entry with scalar differentiation, and derivatives of symbolic functions evaluate correctly once the function is substituted.",
     ["inputs"], "all expressions, all variables, all orders, all assignments",
     "Tests check listed derivative rules in isolation; wrong chain/product handling needs specific combinations and sample points.",
     [W + "derivative.cc", W + "expressions/derivative_expression.cc", W + "expressions/substitute_expression.cc", W + "matrix_functions.cc"],
     [("derivative_visitor", W + "derivative.cc"), ("jacobian", W + "matrix_functions.cc")],
     ["Expr.diff, sym.jacobian, MatrixExpr.diff/jacobian, sym.derivative"],
     "PBT: differential against high-precision forward-mode Taylor/dual arithmetic on the input tree",
     BASE + "Points at kinks/poles are skipped; derivative across a conditional's jump is by design the branch derivative.")

prop("P05", "Substitution means replacement",
     "Substituting variables or sub-expressions yields an expression whose value equals that of the original with the target replaced: evaluating the result equals evaluating the original after binding. A list of substitutions is applied in order, each pair acting on the result of the earlier ones; matrices are substituted entry by entry; a replaced variable no longer occurs; and an expression not containing the target is returned unchanged.",
     ["inputs"], "all expressions, all targets (variables, sums, products, powers, functions), all replacements",
     "Partial matching of sums/products/powers depends on coefficients and exponents that examples barely sample.",
     [W + "substitute.cc", PY + "visitor_wrappers.h"],
     [("partial substitution visitors", W + "substitute.cc"), ("substitute_variables_visitor", W + "substitute.cc")],
     ["Expr.subs, MatrixExpr.subs, sym.subs / substitution pairs"],
     "PBT: metamorphic relation eval(subs(e)) == eval(e, env+binding), structural oracle on trees",
     BASE + "Partial matches are judged by value with the replacement bound to the target's value.")

prop("P06", "distribute and collect preserve value and reach their form",
     "Distributing and collecting never change an expression's value. After distribution no product of sums remains to be expanded at the levels the operation covers, and collecting with respect to variables gathers every power of each variable into a single term.",
     ["inputs"], "all expressions, all variable lists, all assignments",
     "Examples cover small polynomials; errors need particular exponents, nested or repeated factors and multi-variable collection orders.",
     [W + "distribute.cc", W + "collect.cc"],
     [("distribute_visitor", W + "distribute.cc"), ("collect_visitor", W + "collect.cc")],
     ["Expr.distribute, Expr.collect, MatrixExpr.distribute/collect"],
     "PBT: differential evaluation before/after plus polynomial-coefficient model and shape invariants",
     BASE)

prop("P07", "Numeric evaluation agrees with the expression",
     "Evaluating a constant expression or matrix numerically returns the IEEE double (or complex) closest in the ordinary numerical sense to its exact value, and converting expressions to and from Python numbers and NumPy scalars and arrays of any real dtype, shape and memory layout preserves every entry and the shape. An expression with remaining symbols raises an error instead of becoming a number.",
     ["inputs"], "all constant expressions, all arrays (dtype, order, strides), all Python scalars",
     "Layout/stride/dtype combinations and nested constant folding are not enumerable by tests.",
     [W + "evaluate.cc", W + "numerical_casts.cc", PY + "numpy_conversion.cc", PY + "scalar_wrapper.cc"],
     [("evaluate_visitor", W + "evaluate.cc"), ("numpy conversion", PY + "numpy_conversion.h")],
     ["Expr.eval, MatrixExpr.eval, numpy.array(m), sym.matrix(array), float()/int()/complex()"],
     "PBT: differential against 160-bit evaluation; round trip through NumPy layouts",
     BASE)

prop("P08", "Common-subexpression elimination is value-preserving and complete",
     "Eliminating common subexpressions from a scalar or matrix returns an output and an ordered list of replacements such that computing the replacements in order and then the output gives the input's value (and substituting them back gives the identical expression, differently grouped fractional powers aside); each replacement refers only to earlier ones, uses the requested variables once each in order, and the extracted subexpressions are exactly the non-leaf ones that occur under at least the requested number of parents.",
     ["inputs"], "all expressions, all occurrence thresholds, all naming functions",
     "Sharing patterns grow combinatorially; tests examine a handful of expressions.",
     [W + "cse.cc", PY + "scalar_wrapper.cc"],
     [("cse_visitor", W + "cse.cc")],
     ["sym.eliminate_subexpressions on scalars and matrices"],
     "PBT: round trip by back-substitution plus dependency-order invariants",
     BASE)

prop("P09", "Comparisons, booleans and conditionals decide correctly",
     "A relational that the library decides to true or false holds (or fails) for every assignment consistent with the symbols' number sets, and one it leaves symbolic keeps its truth value at every assignment. Conditionals, min, max, Iverson brackets and boolean-matrix selections choose the branch the condition prescribes, including for equal operands, mixed exact/float constants and nested conditions.",
     ["inputs"], "all operand pairs, all number sets, all nestings, all assignments",
     "Soundness over all assignments is universally quantified; int/float comparison has edge cases at rounding boundaries.",
     [W + "expressions/relational.cc", W + "boolean_expression.cc", W + "functions.cc", W + "integer_utils.h"],
     [("relational::create", W + "expressions/relational.cc"), ("compare_int_float", W + "integer_utils.h"), ("where/min/max", W + "functions.cc")],
     ["sym.lt/le/eq/ge/gt, sym.where, sym.min/max, sym.iverson, bool()"],
     "PBT: differential against exact rational/IEEE comparison and 160-bit evaluation",
     BASE)

prop("P10", "Matrix algebra, indexing and decompositions",
     "Matrix construction, stacking, indexing and slicing (negative and strided included), transpose, sums, products, determinants, LU factorization, norms and element-wise maps agree with ordinary linear algebra entry by entry for every compatible shape, LU factors multiply back to the input with the claimed structure, and incompatible shapes or out-of-range indices raise an error rather than returning a value or crashing.",
     ["inputs"], "all shapes, all entries, all index/slice combinations",
     "Shape/slice/pivot combinations are unbounded; tests use fixed small matrices.",
     [W + "matrix_expression.cc", W + "expressions/matrix.cc", W + "matrix_functions.cc", PY + "matrix_wrapper.cc"],
     [("matrix operators", W + "matrix_expression.cc"), ("full-pivot LU and determinant", W + "matrix_functions.cc"), ("slicing", PY + "matrix_wrapper.cc")],
     ["MatrixExpr API, sym.hstack/vstack/diag/det/lu"],
     "PBT: differential against a reference matrix model over exact rationals and NumPy indexing",
     BASE)

prop("P11", "Quaternion and rotation laws",
     "Quaternion operations satisfy the algebra of rotations for every unit quaternion and angle: multiplication, conjugation, inversion and rotation matrices are mutually consistent, conversions between axis-angle, rotation vector, single-axis rotations, matrix and quaternion round-trip to the same rotation, and every provided Jacobian (retraction, local coordinates, left/right SO(3) derivatives) equals the true derivative, also at and around zero angle.",
     ["inputs"], "all quaternions, angles, axes and small-angle settings",
     "Tests sample a few angles; sign, order and small-angle branches need specific regions.",
     [W + "geometry/quaternion.cc", "components/python/wrenfold/geometry.py", PY + "geometry_wrapper.cc"],
     [("quaternion conversions and tangent derivatives", W + "geometry/quaternion.cc")],
     ["wrenfold.geometry.Quaternion and SO(3) functions"],
     "PBT: differential against an independent NumPy/mpmath rotation model and numerical differentiation",
     BASE)

prop("P12", "Printed expressions denote the expression",
     "The plain-text form of every expression, boolean, matrix and quaternion, read with the usual (Python) precedence and associativity, denotes the expression it was printed from, so two expressions with the same text (over distinct symbol names) are equal in value. Printing never fails. The tree form lists the same nodes in the same nesting as the expression.",
     ["inputs"], "all expressions and nestings",
     "Parenthesization errors show only for particular operator nestings and signs.",
     [W + "plain_formatter.cc", W + "tree_formatter.cc"],
     [("plain_formatter precedence handling", W + "plain_formatter.cc"), ("tree_formatter", W + "tree_formatter.cc")],
     ["repr/str of expressions, expression_tree_str"],
     "PBT: print/parse round trip with an independent parser",
     BASE)

prop("P13", "Generated C++ computes the symbolic function",
     "For every function description, the generated C++ compiles and, at every input, returns and writes the values of the symbolic expressions: same branches, same outputs, all and only the requested (including optional) outputs assigned, within floating-point rounding. This holds for every combination of argument kinds (scalars, integers, booleans, matrices, custom types) and for every matrix binding offered.",
     ["inputs", "programs"], "all symbolic functions and signatures, all numeric inputs",
     "Tests compile a fixed catalogue of functions; operator precedence, type casts, branch placement and optional-output handling depend on the expression.",
     [W + "code_generation/cpp_code_generator.cc", W + "code_generation/ast_conversion.cc", W + "code_generation/ir_form_visitor.cc", W + "code_generation/control_flow_graph.cc", W + "code_generation/ir_control_flow_converter.cc"],
     [("C++ formatter", W + "code_generation/cpp_code_generator.cc"), ("AST construction", W + "code_generation/ast_conversion.cc")],
     ["wrenfold.code_generation.generate_function + g++ compiled output"],
     "PBT: random functions, generated code compiled and executed, differential against expression evaluation",
     BASE + "Trusts g++ and the libm; comparison tolerance from a conditioning estimate.")

prop("P14", "Generated Python (NumPy, PyTorch, JAX) computes the symbolic function",
     "For every function description, the generated Python module loads and returns, for every input, the values of the symbolic expressions, for each target library and float width, with and without output arguments passed as parameters. Types, shapes and branch selection agree with the symbolic function.",
     ["inputs", "programs", "configurations"], "all symbolic functions, signatures and targets, all numeric inputs",
     "Tests run a fixed catalogue; per-operator spelling and conversion differ between libraries.",
     [W + "code_generation/python_code_generator.cc", "components/python/wrenfold/code_generation.py"],
     [("python formatter", W + "code_generation/python_code_generator.cc")],
     ["wrenfold.code_generation.generate_python / exec of the generated text"],
     "PBT: random functions, generated Python executed, differential against expression evaluation",
     BASE)

prop("P15", "Generated Rust computes the symbolic function",
     "For every function description over scalars, integers, booleans and matrix/span arguments, the generated Rust compiles and returns or writes the values of the symbolic expressions at every input, with the same branches and the same treatment of optional outputs.",
     ["inputs", "programs"], "all symbolic functions and signatures, all numeric inputs",
     "Tests only build and run a fixed catalogue (and need crates absent here); spelling of casts, method calls on literals and negation varies with the expression.",
     [W + "code_generation/rust_code_generator.cc", "components/rust/wrenfold-traits"],
     [("rust formatter", W + "code_generation/rust_code_generator.cc")],
     ["wrenfold.code_generation.generate_function(RustGenerator) + rustc compiled output"],
     "PBT: random functions, generated Rust compiled and executed, differential against expression evaluation",
     BASE)

prop("P16", "Transpilation to the syntax tree preserves the function",
     "For every function description and every optimization setting (factorization passes, operand binarization, ternary conversion), the emitted syntax tree defines every temporary before use on every path, assigns each output exactly as specified, and evaluates to the symbolic outputs at every input. Optimization settings change only the form, never the value.",
     ["inputs", "programs", "configurations"], "all functions, all optimization parameters, all inputs",
     "Optimizer passes interact (value numbering, factoring, conditional merging, dead code); errors need particular sharing and branching patterns.",
     [W + "code_generation/control_flow_graph.cc", W + "code_generation/factorizer.cc", W + "code_generation/binarizer.cc", W + "code_generation/ir_control_flow_converter.cc", W + "code_generation/ast_conversion.cc", W + "code_generation/ir_form_visitor.cc"],
     [("control_flow_graph passes", W + "code_generation/control_flow_graph.cc"), ("factorizer", W + "code_generation/factorizer.cc")],
     ["wrenfold.code_generation.transpile; the wrenfold.ast tree it returns"],
     "PBT: independent AST interpreter, differential against expression evaluation across configurations",
     BASE)

prop("P17", "SymPy conversion preserves meaning in both directions",
     "The SymPy form of an expression, boolean expression or matrix has the same value at every assignment, with evaluate on or off; converting it back yields an identical expression (evaluate=False, up to what SymPy's constructors themselves reorder or rewrite, such as the operands of Min/Max) or one of the same value. Converting SymPy expressions in (including Piecewise, Heaviside, Derivative, Subs and undefined functions) yields an expression of the same value, undefined where SymPy's is. Symbol names, symbol assumptions, function names, numbers and matrix shapes are preserved; what cannot be represented is refused.",
     ["inputs"], "all supported expressions, both directions, evaluate on/off",
     "Tests convert one example per node type; composed expressions exercise evaluate flags and argument ordering.",
     ["components/python/wrenfold/sympy_conversion.py", PY + "sympy_conversion.cc"],
     [("to_sympy/from_sympy", "components/python/wrenfold/sympy_conversion.py")],
     ["wrenfold.sympy_conversion.to_sympy / from_sympy"],
     "PBT: round trip and differential evaluation through SymPy",
     BASE)

prop("P18", "Custom types and external functions carry values faithfully",
     "Functions whose inputs or outputs are user-defined structured types (nested, containing matrices) or that call user-declared external functions receive every field and argument in its declared place and order, in the symbolic result and in generated code. Constructing, accessing and passing such values never mixes, drops or duplicates fields.",
     ["inputs", "programs"], "all type layouts, nestings, call graphs and inputs",
     "Tests define a few fixed types; index bookkeeping errors need particular nestings, repeated types or several calls.",
     [W + "code_generation/types.cc", W + "external_function.cc", W + "compound_expression.cc", "components/python/wrenfold/custom_types.py", "components/python/wrenfold/external_functions.py"],
     [("custom_type fields and recursive indices", W + "code_generation/types.cc"), ("compound_expression elements", W + "compound_expression.cc")],
     ["create_function_description / generated Python and C++ with custom types and external functions"],
     "PBT: random type layouts and call graphs, execution differential against direct Python evaluation",
     BASE)

prop("P19", "Runtime span views address exactly the intended elements",
     "For every shape, stride and element type (constant or dynamic), runtime spans and their blocks address precisely the element the index arithmetic prescribes, in bounds, with assignment and conversion writing only the viewed elements. Invalid constructions are rejected at compile time or by the documented check.",
     ["inputs"], "all dimensions, strides, block offsets and layouts, static and dynamic",
     "Tests instantiate a few shapes; wrong stride use is hidden by square or contiguous cases.",
     ["components/runtime/wrenfold/span.h", "components/runtime/wrenfold/span_detail.h", "components/runtime/wrenfold/span_eigen.h"],
     [("span and value_pack", "components/runtime/wrenfold/span.h")],
     ["wf::span API from C++"],
     "PBT: generated shapes/strides/blocks against an index model, with address/undefined sanitizers",
     BASE)

prop("P20", "Code generation is deterministic and independent of history",
     "Generating code for the same function description yields identical text in any process, whatever was created or generated before, whatever the hash seed or memory layout, and whatever order equivalent operands were supplied in. Functions generated together equal those generated separately.",
     ["inputs", "histories", "configurations"], "all functions, all prior histories of library use, all processes",
     "A test sees one history in one process; dependence on addresses, unique-variable counters or container order needs varied histories.",
     [W + "code_generation", W + "expression.cc", W + "expressions/addition.cc"],
     [("canonical ordering in IR formation", W + "code_generation/ir_form_visitor.cc")],
     ["text returned by generate_function / CodeGenerator.generate"],
     "PBT: stateful histories across processes, equality of generated text",
     BASE)

prop("P21", "Invalid use raises an error and leaves the library usable",
     "Every call of the symbolic and code-generation API with arguments of any value and combination either succeeds or raises a Python exception; the process never crashes, hangs or corrupts state, and expressions created before the failure keep working with the same value afterwards.",
     ["inputs", "histories"], "all call sequences with valid and invalid arguments",
     "Tests check listed error cases one at a time, not arbitrary sequences.",
     [PY + "", W + "utility/error_types.h", W + "utility/assertions.h"],
     [("typed exceptions", W + "utility/error_types.h")],
     ["wrenfold.sym, wrenfold.geometry, wrenfold.code_generation"],
     "PBT: stateful API fuzzing with a model of previously created values; crash/hang isolation",
     BASE)

DONE = set(p for p in [q["id"] for q in P]
           if list((V / "checks").glob(p.lower() + "_*.py")))

with open(V / "properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if k not in ("technique", "note")}) + "\n")
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": [],
     "notes": "See DESIGN.md. Every check: ./run.sh ID --tier quick|thorough (VERIF_SEED, default 1)."}
for p in P:
    if p["id"] in DONE:
        m["checks"].append(dict(property=p["id"], quick_cmd=f"./run.sh {p['id']} --tier quick",
                                thorough_cmd=f"./run.sh {p['id']} --tier thorough",
                                technique=p["technique"], level="exploration",
                                level_note=p["note"]))
    else:
        m["not_applicable"].append(dict(property=p["id"], reason="check not built yet"))
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
S = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for p in open(V / "properties.jsonl"):
    jsonschema.validate(json.loads(p), S)
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(P), "properties,", len(m["checks"]), "checks")

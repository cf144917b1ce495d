NOT_APPLICABLE = {}
NPJ = "assumed contracts of numpy / jax.numpy array functions as modelled in engine/pynp.py (shapes, broadcasting, indexing, views and copies, element-wise functions)"
JAXR = "assumed contracts of the jax entry points: Primitive.bind runs the registered implementation, register_lowering/custom_call call the registered C++ target with the given operands, ad.Zero is a zero tangent, tree flattening of tuples, lists and dictionaries"
BASISC = "the jax layer uses basis objects through their contract (H, n, m, c, numC), which the c.* and py.* jobs of B01-B07 prove"
JIT = "jit(f) computes f; tracing passes functional copies of the arguments"
LSQ = "np.linalg.pinv(J) @ v and np.linalg.lstsq(J, v)[0] both return the minimum-norm least-squares solution of J d = v; jacfwd returns the Jacobian"
LOOP = "lax.while_loop(cond, body, init) iterates body while cond holds"
TRACE = "trace_to_jaxpr_nounits / eval_jaxpr: evaluating the traced program at the unknown leaves gives the traced function's value; tree_flatten and unflatten are inverse"
SYM = "sympy: Matrix products, transpose, inverse, Add and subscripts are the mathematical operations; simplify and nc_simplify do not change the value; constraint results are scalar expressions"
JVP = "jvp(g, point, direction) returns the value and the directional derivative"
OD = "collections.OrderedDict keeps insertion order; hstack concatenates in order"
DRAW = "np.random.uniform returns values in [0, 1) or in the given range"
CPP = [ENG, LIBM, BIND]
PYB = [ENG, LIBM, NPJ]
NOTES = {}
ALL = "for all sizes, orders and points"


def note(ids, trusted, what, extra=()):
    for i in ids:
        NOTES[i] = dict(note=f"the functions listed in the evidence are proved {what}; the remaining functions, and floating point, are covered by the bounded stand-in", trusted=trusted, assumptions=[REAL] + list(extra))


note(["B01"], CPP, ALL)
note(["B02"], PYB, ALL)
note(["B03", "B04", "B05", "B07"], CPP + [NPJ], ALL)
note(["B06"], CPP + [NPJ], "for all degrees, removal lists, orders and points, in dimensions 1 to 4 (C++ and Python; the dimension is a fixed number in each proof)")
note(["B08"], CPP + [NPJ, BASISC, DRAW], "for all sizes, ranges and constraint counts (n-D constructors: dimensions 1 to 3)")
note(["B09"], CPP + [NPJ, JAXR, BASISC], "for all sizes and orders (n-D: dimensions 1 to 3)")
note(["B10"], PYB + [JAXR, BASISC], "for all sizes and orders (n-D: dimensions 1 to 3)")
note(["B11"], [ENG, BIND], "for all sizes, orders and points: memory safety of the evaluating functions, constructors, destructors, the object registry and xlaWrapper (tensor products: dimensions 1 to 3)")
note(["B12"], CPP + [NPJ], "for all sizes (n-D Python: any dimension)")
note(["D01"], [ENG, NPJ, OD], "for any number of keys and any shapes")
note(["H01"], PYB + [JAXR, BASISC], "for any number of member bases")
note(["S01"], [ENG, LSQ, JIT], "for every residual, coefficient structure and option; any number of arguments without constants, up to three with constants (all subsets and orders)")
note(["S02"], [ENG, LSQ, JIT, LOOP], "for every residual, state, tolerance, limit and option; any number of arguments without constants, up to three with constants; any number of runs")
note(["S03"], [ENG, TRACE, JIT], "for every function and value, up to four arguments (all subsets and orders of constant positions; leaf, dictionary, nested and empty arguments)")
note(["S04"], [ENG, "np.linalg.qr(X) = (Q, R) with Q R = X and Q^T Q = I; np.linalg.pinv(R) = R^-1 for invertible R (exact arithmetic; the threshold is taken to lie below the singular values); np.linalg.cond is invariant under Q"], "for every matrix with independent columns and every right-hand side")
note(["U01"], [ENG, JVP], "for every function, any number of arguments and every position")
note(["E01"], [ENG, SYM, "Lean 4 kernel and Mathlib (lean/Constrained.lean)"], "for any number of constraints and every free function", ["constraint operators are linear and commute with multiplication by the projection terms"])
note(["E02"], [ENG, SYM, "sympy printing: _print dispatches on the kind of node, parenthesize brackets an expression that binds less tightly than the level given; re.sub with \\b(?:a|b)\\b replaces whole names"], "for every history of edits and reads and any number of constraints; printing: functions of up to 4 arguments with any derivative orders, substitutions of up to 3 variables, any sub-expressions; the inherited sympy printer is assumed for the other kinds of node")
note(["G02"], [ENG, "graphviz Digraph and yattag Doc record what they are given; os and open follow their documentation; drawing itself (dot) is exercised by the stand-in"], "for any number of components and constraints and any orientations; 1, 2, 5, 6 and 8 embeddings; component and constraint names without characters special to Graphviz")
note(["L01"], [ENG, "np.array2string puts the formatted entries, joined by the separator, in brackets, and abbreviates only beyond the threshold"], "for any numbers of rows and columns (at least one of each), white space aside; number formats without square brackets")
note(["G01"], [ENG, "itertools.product([0, 1], repeat=n) lists every tuple once; np.linalg.eigvals returns exactly zero for every eigenvalue exactly if the matrix is nilpotent (bounded: exercised by the stand-in)", "Lean 4 kernel and Mathlib (lean/Acyclic.lean)"], "for any number of components and constraints (at least one), with distinct component names and constraints between different components")
LEANED = {"B01": "lean/Recurrence.lean", "B02": "lean/Recurrence.lean", "B03": "lean/Derivatives.lean", "B04": "lean/Derivatives.lean", "B07": "lean/Derivatives.lean", "B08": "lean/Derivatives.lean"}
for k, f in LEANED.items():
    NOTES[k]["trusted"] = NOTES[k]["trusted"] + [f"Lean 4 kernel and Mathlib ({f})"]
for p in [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]:
    NOTES.setdefault(p, dict(note="bounded stand-in: run-time checking of the property on generated inputs; not counted as proved", assumptions=[]))

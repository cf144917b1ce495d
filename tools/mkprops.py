import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,hook=False):
    a={"files":files,"mechanism":[{"name":mech,"where":", ".join(files)}]}
    if observe: a["observe_at"]=[observe]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
CC=["src/tfc/utils/BF.cc","src/tfc/utils/BF.h"]; PY=["src/tfc/utils/BF_Py.py"]; TU=["src/tfc/utils/TFCUtils.py"]
p("B01","Compiled polynomial bases return exact values and derivatives",
 "For each polynomial family of the compiled backend (Chebyshev, Legendre, Laguerre, probabilists' and physicists' Hermite), column k of the basis matrix at a point is the k-th polynomial of that family evaluated at the mapped point. The matrix requested for derivative order d holds the d-th derivatives of those same polynomials.",
 ["inputs"],"every number of basis functions m>=1, every derivative order d>=0, every number of points and every point",
 "the repository's tests compare a fixed m and d<=4 on one point set; recurrences, special cases for small m and large d and row/column strides can be wrong elsewhere",
 CC,"Hint and RecurseDeriv of CP, LeP, LaP, HoPpro, HoPphy","basis matrix returned to Python")
p("B02","Pure-Python polynomial bases return exact values and derivatives",
 "For each polynomial family of the pure-Python backend (Chebyshev, Legendre, Laguerre, both Hermite families), column k of the basis matrix is the k-th polynomial of that family at the mapped point, and the matrix for derivative order d holds the d-th derivatives. This holds for real and complex points, and both backends agree on real points.",
 ["inputs"],"every number of basis functions m>=1, every derivative order d>=0, every number of points and every point",
 "tests sample one m and small d; the recursion over derivative orders and degenerate sizes must hold for all",
 PY,"_Hint and recursion helpers of CP, LeP, LaP, HoPpro, HoPphy","basis matrix returned by the Python backend")
p("B03","Fourier basis returns exact values and derivatives in both backends",
 "In both backends column 0 of the Fourier basis is the constant function, column 2g-1 is sin(g z) and column 2g is cos(g z), where z is the mapped point. The matrix for derivative order d holds the d-th derivatives with respect to the mapped point, for every order.",
 ["inputs"],"every number of basis functions, every derivative order (all residues modulo 4), every point",
 "tests check few orders and one size; the sign/phase pattern and the frequency of each column depend on the residue of d and on column parity",
 CC+PY,"FS::Hint and the Python FS basis","basis matrix")
p("B04","Univariate random-feature bases are the derivatives of their activation",
 "In both backends column j of a univariate extreme-learning-machine basis is the activation (rectifier, sigmoid, hyperbolic tangent, sine or swish) of w_j z + b_j. For derivative orders up to eight (every order for the sine and the rectifier) the matrix holds the exact derivatives with respect to the mapped point, including the powers of w_j.",
 ["inputs"],"every number of nodes, all weights and biases, every supported derivative order, every point",
 "each order has its own closed form; tests check a subset of orders at random weights, so a wrong coefficient or a wrong branch for one order or sign of the argument is not seen",
 CC+PY,"Hint of ELMReLU/ELMSigmoid/ELMTanh/ELMSin/ELMSwish and their Python counterparts","basis matrix")
p("B05","Removing constrained basis functions removes exactly those columns",
 "When basis functions are removed for the constraints, the reduced matrix consists of exactly the full matrix's columns that were not listed, in their original order, with unchanged values. Asking for the full matrix ignores the removal list, and the reported number of functions matches the matrix width.",
 ["inputs"],"every m, every set of distinct removed indices (any order, any position, including none), every derivative order and point set, one-dimensional and multivariate random-feature bases, both backends",
 "tests remove only leading prefixes; a removal list in arbitrary order or at the end exercises different index arithmetic",
 CC+PY,"BasisFunc::H/xla, nELM variants and the Python H methods","basis matrix and its width")
p("B06","Multivariate product basis enumerates exactly the allowed products",
 "A multivariate non-random basis contains exactly one column for every multi-index whose total degree does not exceed the requested degree, except those whose factors are all listed for removal in their respective dimensions; the column is the product of the one-dimensional functions (or the requested partial derivative). The full basis ignores the removals, the reported count equals the width, and both backends use the same column order.",
 ["inputs"],"every dimension, degree, per-dimension removal list, mixed derivative order and point set",
 "tests use two or three dimensions with one degree; recursion over dimensions and the counters must agree for all",
 CC+PY,"nBasisFunc::NumBasisFunc, RecurseBasis, nHint and the Python nBasisFunc","basis matrix and its width")
p("B07","Multivariate random-feature bases are partial derivatives of the activation",
 "Column j of a multivariate extreme-learning-machine basis is the activation of the weighted sum of the mapped coordinates plus bias j. For mixed derivative orders of total at most eight (every order for the sine and the rectifier) the matrix holds the corresponding partial derivative, i.e. the activation's derivative of the total order times the product of the weights raised to the order in each dimension.",
 ["inputs"],"every dimension, node count, weights, biases, mixed orders of total at most eight and point sets, both backends",
 "tests sample first and second orders in two dimensions",
 CC+PY,"nELM*::nElmHint and the Python nELM classes","basis matrix")
p("B08","Domain map and collocation points are consistent with the problem domain",
 "The affine map sends the start of the problem domain to the start of the basis domain and its end to the end, and basis derivatives are scaled by the chain-rule factor so that they are derivatives with respect to the problem variable. The collocation points lie in the problem domain, are ordered, start and end at the domain ends, and in several dimensions form the full tensor grid with the last dimension varying fastest.",
 ["inputs"],"every domain, number of points per dimension, basis and dimension count",
 "tests use one domain and a few grids; asymmetric domains, unequal counts per dimension and shifted origins exercise the map differently",
 CC+PY+["src/tfc/utfc.py","src/tfc/mtfc.py"],"constructors, H (chain rule factor), utfc.__init__ and mtfc.__init__ grids","x, z, c attributes and matrices")
p("B09","JIT-compiled evaluation equals eager evaluation for every live instance",
 "Evaluating a basis inside a just-in-time compiled function returns the same matrix as evaluating it eagerly, for the same points, derivative order and full/reduced choice. Creating further instances, in any order and of any kind, never changes which basis an already compiled function evaluates.",
 ["inputs","histories"],"every basis, shape, order and every history of instance creation",
 "depends on the history of created objects and on operand positions agreed between two languages; a test with one live object cannot observe it",
 CC+["src/tfc/utfc.py","src/tfc/mtfc.py"],"static identifier and container, xlaWrapper, xla methods, H_xla lowering")
p("B10","Automatic differentiation of a basis gives its next derivative",
 "Differentiating a basis evaluation with respect to a coordinate in the automatic-differentiation framework gives the matrix of the next derivative order in that coordinate times the tangent, at any order and with the same full/reduced choice. The named derivative methods return the matrix of the order they are named after.",
 ["inputs"],"every order, coordinate, tangent and full flag",
 "tests differentiate a handful of orders; the rule must be closed under repetition and per coordinate",
 ["src/tfc/utfc.py","src/tfc/mtfc.py"],"H_jvp rules, Hjax bindings and the H, dH, ..., Hx2y methods")
p("B11","The compiled basis library never touches memory it does not own",
 "Every read and write of the compiled basis functions stays inside the allocated buffers, only initialised values are read, and every temporary is released exactly once, whatever the sizes and orders requested. The buffer returned to the caller has exactly the announced shape and every entry is set.",
 ["inputs"],"every m, d, number of points, dimension, removal list and weight count",
 "out-of-bounds or uninitialised accesses are silent for most sizes and need particular sizes to crash",
 CC+["src/tfc/utils/BF_Py.cc"],"all loops over heap buffers in BF.cc")
p("B12","Weights and biases set on a random-feature basis are the ones used",
 "Weights and biases written to a random-feature basis, of the right size, are returned unchanged when read back and are the ones used by every later evaluation, while the other parameter is unaffected. A size mismatch is refused and leaves the stored values unchanged, and freshly drawn parameters lie in the documented range.",
 ["inputs","histories"],"every sequence of reads, writes and evaluations on any number of instances, both backends",
 "needs sequences of set, get and evaluate on several instances; stale weights are invisible to a single call",
 CC+PY+["src/tfc/utils/BF_Py.cc"],"setW/getW/setB/getB, constructors of ELM and nELM, Python properties")
p("S01","Linear solver returns the least-squares step of the given residual",
 "For a residual that is linear in the coefficients, the linear solver returns coefficients that minimise the sum of squares of the residual: one pseudo-inverse step from the starting coefficients (the zero vector for the function form, the given ones for the class form). Every method, timing, holomorphic and constant-argument option computes the same solution, structured coefficients keep their structure, and the caller's arguments are not modified.",
 ["inputs"],"every linear residual, coefficient structure, starting value and option combination",
 "tests solve one problem with default options; option combinations multiply and most are never run",
 TU,"LS and LsClass.run")
p("S02","Nonlinear solver iterates Newton least-squares and stops as documented",
 "The nonlinear solver applies the least-squares Newton update to the current coefficients and stops exactly when the residual is within tolerance, the update is within tolerance, or the iteration limit is reached, returning the coefficients and the number of iterations actually performed. A supplied stopping condition, update step or solution method replaces the default one, and the class form with repeated runs gives the same result as the function form.",
 ["inputs","histories"],"every residual, starting value, tolerance, iteration limit and option combination, repeated runs",
 "loop exits depend on the history of residuals; tests reach one exit with one configuration",
 TU,"NLLS and NllsClass")
p("S03","Partial evaluation preserves the function's value",
 "Partially evaluating a function with chosen arguments fixed as compile-time constants gives, for all values of the remaining arguments, the same result as calling the original function. Argument positions, structured arguments and the caller's argument lists are preserved.",
 ["inputs"],"every function, set and order of constant positions and argument values",
 "tests fix one position; permutations of positions and structured arguments differ",
 TU,"pe and pejit")
p("S04","The scaled QR solver returns the least-squares solution",
 "For every matrix whose columns are linearly independent and every right-hand side, whether a vector or several columns, the scaled QR solver returns the coefficients that minimise the norm of the residual of each right-hand side, arranged as one row per matrix column. The reported condition number is that of the matrix with its columns scaled to unit length.",
 ["inputs"],"every matrix with independent columns, every scaling of the columns and every right-hand side",
 "no test calls it; right-hand sides with several columns and badly scaled columns differ from the one vector a test would try",
 TU,"ScaledQrLs and _MatPinv")
p("D01","Coefficient dictionaries behave as an ordered vector space",
 "Flattening a coefficient dictionary concatenates its values in key order and rebuilding from a flat vector restores every entry with its shape. Adding, subtracting, or updating with another dictionary or a flat vector acts entry by entry and never modifies the operands of a non-in-place operation.",
 ["inputs","histories"],"every key set, value shapes and sequence of operations",
 "tests use a couple of dictionaries with equal shapes",
 TU,"TFCDict and TFCDictRobust")
p("E01","Constrained expressions satisfy their constraints for every free function",
 "The constrained expression produced symbolically satisfies every given linear constraint identically, for every choice of the free function, provided the support functions are independent for the constraints. Substituting the projection terms and switching functions back reproduces the same expression.",
 ["inputs"],"every set of constraint operators, values, support functions and free functions",
 "tests check a few worked examples for equality with a known expression",
 ["src/tfc/utils/CeSolver.py"],"_SolvePhis/phi, rho, kappa and ce construction")
p("E02","Constrained-expression solver stays coherent under any edit history",
 "After any sequence of edits to constraints, values, support functions or free function and reads of results, the reported switching functions, projections and constrained expression are those a freshly built solver with the current inputs would report. Printed code for an expression denotes the same expression.",
 ["histories"],"every sequence of setter and getter calls",
 "cached results can only be stale after particular interleavings of reads and writes",
 ["src/tfc/utils/CeSolver.py"],"setters, staleness flags and lazily computed results")
p("G01","Constraint graph reports exactly the acyclic embeddings",
 "The component constraint graph enumerates every way of orienting the component constraints exactly once, and reports as valid exactly the orientations in which no chain of constraints leads from a component back to itself. The answer does not depend on the order in which components or constraints are listed.",
 ["inputs"],"every set of components and of constraints between distinct components, in any order",
 "tests use one small graph",
 TU,"ComponentConstraintGraph")
p("G02","Saved constraint graphs draw exactly the reported embeddings",
 "Saving a constraint graph writes, for every reported embedding (the valid ones, or all of them on request), one picture and one page numbered in the order reported. Each picture has every component once and every constraint once, as a labelled arrow in that embedding's direction; each page shows its own picture, and the overview links every page exactly once. This holds for any number of components, constraints and embeddings.",
 ["inputs"],"every graph and every orientation, both choices of what to save",
 "no test saves a graph; a wrong arrow shows only in a picture",
 ["src/tfc/utils/TFCUtils.py","src/tfc/utils/Html.py"],"ComponentConstraintGraph.SaveGraphs, HTML, Dot")
p("H01","Hybrid basis is the side-by-side concatenation of its parts",
 "The matrix of a hybrid basis, for each available derivative order and full/reduced choice, is the concatenation by columns of its member bases' matrices in the given order at the same points. Members with different numbers of points are refused.",
 ["inputs"],"every list of member bases, order, flag and points",
 "no test covers it",
 ["src/tfc/utfc.py"],"HybridUtfc")
p("L01","Latex tables show every entry in its place",
 "A table generated from a two-dimensional array of floating-point numbers has one row per row of the array, in order, each holding every entry of that row once, in order, in the requested number format, preceded by its row header if headers are given; the number of declared columns and the column headers match. This holds for any numbers of rows and columns.",
 ["inputs"],"every array, format and choice of headers",
 "no test generates a table",
 ["src/tfc/utils/Latex.py"],"table.SimpleTable and its helpers")
p("U01","Element-wise gradient differentiates with respect to the chosen argument only",
 "The element-wise gradient of a function with respect to one of its arguments returns the directional derivative along the all-ones direction of that argument, with every other argument held fixed. For a function that acts element by element this is its derivative at every element, it can be nested to obtain mixed and higher derivatives, and the arguments may be arrays or coefficient dictionaries.",
 ["inputs"],"every function, argument position, argument values and nesting",
 "tests use one argument position and one nesting",
 TU,"egrad, egradRobust, onesRobust, zerosRobust and step")
with open("/verif/properties.jsonl","w") as f:
    for q in P: f.write(json.dumps(q,ensure_ascii=False)+"\n")

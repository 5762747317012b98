import json
H='include/fastad_bits/'
def P(id,title,stmt,over,text,why,files,mech,obs,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":obs,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    return {"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a}
L=[]
L.append(P("C01","Elementwise functions and operators return exact values and partial derivatives",
"For every elementwise function (negation, sin, cos, tan, asin, acos, atan, exp, log, sqrt, erf, sigmoid, sinh, cosh, tanh, integer power) and every arithmetic operator (+, -, *, /), in every permitted shape combination including scalar-with-vector/matrix broadcasting, forward evaluation yields the mathematical function of the operand values at every point of the function's domain. Backward evaluation with any seed then increases each operand's adjoint by exactly the seed times the mathematical partial derivative, summed over the broadcast elements when the operand is a scalar. At the documented edge points of the power function (base 0) the documented values result: 0 raised to 0 is 1, the derivative of a positive power at 0 is its mathematical value, and a negative power gives infinity with a derivative contribution of minus infinity.",
["inputs","programs"],"all real operand values in the domain, all seeds, all prior adjoints; every function x shape combination x operand kind (leaf or sub-expression), sizes up to the stated bound",
"The unit tests evaluate each function at one or two fixed points with seed 1 (or one fixed seed) and a few fixed sizes; a derivative that is wrong only for another sign, zero, another seed, another broadcast direction or another size passes them.",
[H+"reverse/core/unary.hpp",H+"reverse/core/binary.hpp",H+"reverse/core/pow.hpp"],
[("per-function forward map and derivative map, applied to cached operand values",H+"reverse/core/unary.hpp"),("left/right derivative maps with a sum over elements when an operand is broadcast",H+"reverse/core/binary.hpp"),("compile-time power with special case at base 0",H+"reverse/core/pow.hpp")],
["value returned by evaluate/autodiff","adjoints of the leaf variables after evaluate_adj/autodiff"]))
L.append(P("C02","Reductions and linear algebra give exact values and gradients",
"Summing or multiplying the elements of an expression or a range of expressions, the squared norm, the matrix product and the transpose return the mathematical result for every operand value, including zero factors in a product, repeated factors, single-element and empty ranges. Backward evaluation with any seed (scalar, or one seed per element of a vector/matrix result) increases every operand's adjoint by exactly the seed-weighted partial derivative. A product's gradient is exact also when one or several factors are zero.",
["inputs","programs"],"all real element values (any pattern of zeros), all seeds, sizes 0..n up to the stated bound, vector and matrix shapes, leaf and composite operands",
"Tests use a handful of hand-picked matrices and one or two zero patterns; gradient formulas that divide by elements or mix up rows and columns agree on symmetric or square samples.",
[H+"reverse/core/sum.hpp",H+"reverse/core/prod.hpp",H+"reverse/core/dot.hpp",H+"reverse/core/norm.hpp",H+"reverse/core/transpose.hpp"],
[("seed re-used for each summand",H+"reverse/core/sum.hpp"),("product gradient by dividing the total, recomputed when a factor is 0",H+"reverse/core/prod.hpp"),("dual products with the transposed operand",H+"reverse/core/dot.hpp"),("2*seed*x",H+"reverse/core/norm.hpp"),("transposed adjoint",H+"reverse/core/transpose.hpp")],
["value returned by evaluate/autodiff","adjoints of the leaf variables"]))
L.append(P("C03","Determinant and log-determinant are exact on valid matrices, inert otherwise",
"For every square matrix in the domain of the chosen decomposition (invertible for the default, symmetric positive definite for Cholesky, symmetric definite for the square-root-free Cholesky), the determinant and log-absolute-determinant expressions evaluate to the mathematical value. Backward evaluation adds seed times the mathematical gradient to the operand's adjoint. When the matrix is singular (or, for Cholesky, not positive definite) backward evaluation leaves every adjoint unchanged and finite, and a later evaluation at a valid matrix is again exact.",
["inputs","histories"],"all symbolic matrices up to the stated size, entry magnitude and conditioning bound; all seeds; sequences valid->invalid->valid of evaluations of one expression",
"Tests use fixed matrices; determinant gradients involve pivoting decisions and the sign of the permutation that single samples do not exercise.",
[H+"reverse/core/det.hpp",H+"reverse/core/log_det.hpp"],
[("decomposition policy computing value and inverse",H+"reverse/core/det.hpp"),("validity flag guarding back evaluation",H+"reverse/core/log_det.hpp")],
["value returned by evaluate","adjoints of the matrix variable"],
[("decomposition","factorisation kept from forward to backward evaluation",H+"reverse/core/det.hpp")]))
L.append(P("C04","Placeholders, in-place updates and sequencing equal their inlined meaning",
"A program built from placeholder assignment, in-place +=, -=, *=, /= on variables, comma-sequencing and for-each, evaluated and differentiated, gives the same final value and the same gradient with respect to every input variable as the mathematical function obtained by substituting each placeholder and each updated variable by its definition at that point. Each placeholder holds its defining expression's value after forward evaluation, and when a placeholder is used several times its contributions all flow back exactly once. In-place updated variables hold their pre-update value again after backward evaluation.",
["programs","inputs"],"every straight-line program up to the stated number of statements over scalar and vector variables with every placeholder/updating operator, placeholders used 0, 1 or several times, all values and seeds",
"Tests run a few fixed programs with fixed numbers; which adjoint reaches which variable depends on the order and multiplicity of uses, that is on the program.",
[H+"reverse/core/eq.hpp",H+"reverse/core/glue.hpp",H+"reverse/core/for_each.hpp"],
[("placeholder accumulates the full adjoint, then seeds its definition",H+"reverse/core/eq.hpp"),("saved previous value and adjoint for in-place updates",H+"reverse/core/eq.hpp"),("right-to-left backward order",H+"reverse/core/glue.hpp"),("reverse iteration with zero seed",H+"reverse/core/for_each.hpp")],
["value returned by autodiff","adjoints of the input variables","placeholder values after evaluate"]))
L.append(P("C05","Conditionals and comparisons select exactly one branch's value and gradient",
"A conditional expression evaluates to the value of the branch its condition selects and backward evaluation adds only that branch's gradient; nothing flows into the other branch or through the condition. This holds wherever the conditional appears: alone, as operand of any other function or operator, as the right end of a sequence, nested in another conditional, or as a condition. Comparison and logical operators on expressions yield exactly the truth value of the comparison of their operand values, elementwise for vectors and matrices.",
["inputs","programs"],"all real values (including ties) of the compared operands, all comparison and logical operators, nesting depth up to the stated bound, both branches, scalar and vector branches",
"Tests evaluate the conditional alone with one true and one false condition; ties, nesting and use inside other expressions are not exercised.",
[H+"reverse/core/if_else.hpp",H+"reverse/core/binary.hpp"],
[("condition evaluated forward, branch chosen again backward from the cached condition",H+"reverse/core/if_else.hpp"),("comparison and logical maps with no backward pass",H+"reverse/core/binary.hpp")],
["value returned by evaluate/autodiff","adjoints of the variables in each branch"]))
def pdf(id,name,f,extra,stmt,text,why):
    L.append(P(id,name,stmt,["inputs","programs"],text,why,[H+f],[("closed-form gradient per shape case",H+f),("cached statistics, precomputed for constant operands",H+f)]+extra,["value returned by evaluate/autodiff","adjoints of every parameter and of x"],[("cached statistics","log terms, ranges, sums or factorisations kept from the last forward evaluation",H+f)]))
pdf("C06","Normal log-density: exact value and gradient for every shape and operand kind","reverse/stat/normal.hpp",[],
"For every combination of x (scalar or vector), mean (scalar or vector) and scale (scalar or vector standard deviation, or covariance matrix), each being constant or variable, the adjusted normal log-density equals the mathematical log-density up to its documented omitted constant, and backward evaluation with any seed adds the seed times its exact partial derivatives. When any standard deviation is not positive or the covariance is not positive definite the value is minus infinity and backward evaluation changes no adjoint. Changing variable values and evaluating again gives the value and gradient at the new point.",
"all real x, mean, scale (in and out of support), all seeds, all shape cases x constant/variable combinations, size up to the stated bound, two successive evaluations",
"Tests use fixed samples with mostly seed 1 and check each case once; the optimised constant paths and re-evaluation with changed values are sampled at most once.")
pdf("C07","Cauchy log-density: exact value and gradient for every shape and operand kind","reverse/stat/cauchy.hpp",[],
"For every combination of scalar or vector x, location and scale, each constant or variable, the adjusted Cauchy log-density equals the mathematical log-density up to its documented omitted constant, and backward evaluation with any seed adds exactly the seed times the partial derivatives with respect to x, location and scale. When any scale is not positive the value is minus infinity and backward evaluation changes no adjoint. Re-evaluation after changing variable values gives the result at the new point.",
"all real x, location, scale (in and out of support), all seeds, all shape cases and constant/variable combinations, size up to the stated bound, two successive evaluations",
"Tests seed with the default 1 only, at one sample per case.")
pdf("C08","Uniform log-density: exact value, gradient and support for every shape","reverse/stat/uniform.hpp",[],
"For every combination of scalar or vector x, minimum and maximum, each constant or variable, the uniform log-density is minus the sum of log(max - min) when every x lies strictly between its bounds and minus infinity otherwise. Backward evaluation with any seed adds exactly the partial derivatives with respect to minimum and maximum inside the support and changes nothing outside it. Support and value are those of the current variable values at every evaluation, not of an earlier one.",
"all real x, min, max including ties with the bounds, all seeds, all shape cases and constant/variable combinations, size up to the stated bound, two successive evaluations",
"Tests use one in-range and one out-of-range sample per case; constant x with variable bounds and changed bounds are not sampled.")
pdf("C09","Bernoulli log-density: exact value, gradient and support for every shape","reverse/stat/bernoulli.hpp",[],
"For scalar or vector observations and scalar or vector success probability, constant or variable, the Bernoulli log-density is the sum of log p over ones and log(1-p) over zeros, with p clipped to [0,1] so that an impossible observation gives minus infinity and a certain one contributes zero; an observation other than 0 or 1 gives minus infinity. Backward evaluation with any seed adds the exact derivative for probabilities strictly between 0 and 1 and nothing for clipped probabilities or invalid observations. Re-evaluation after changing values gives the result at the new point.",
"all real p including below 0, 0, 1 and above 1, observations 0, 1 or other, all seeds, all shape cases and constant/variable combinations, size up to the stated bound, two successive evaluations",
"Tests sample a few probabilities; the clipping cases multiply over vector elements and over cached statistics.")
pdf("C10","Wishart log-density: exact value and gradient on positive definite matrices","reverse/stat/wishart.hpp",[],
"For symmetric positive definite X and V, each constant or variable, and a constant degree of freedom n, the adjusted Wishart log-density equals (n-p-1)/2 log det X - tr(V^-1 X)/2 - n/2 log det V and backward evaluation with any seed adds exactly its matrix gradients. When X or V is not positive definite the value is minus infinity and backward evaluation changes no adjoint. Re-evaluation after changing matrix values, including from an invalid to a valid point, gives the result at the new point.",
"all symbolic symmetric matrices up to the stated size (definite and not), all n, all seeds, all constant/variable combinations, two successive evaluations",
"Tests use fixed 2x2 samples per case, mostly with the default seed; constant X with variable V has a cache that single evaluation of a favourable sample need not reveal.")
L.append(P("C11","Forward mode computes exact directional derivatives for every program",
"For every program composed of the forward-mode operators and functions, the result's value is the mathematical value and its adjoint is the directional derivative along the direction given by the inputs' adjoints, for all input values in the domain and all directions. In-place addition behaves like addition followed by assignment, including when a variable is added to itself, and arithmetic with plain constants treats them as having zero derivative. The result is linear in the direction.",
["inputs","programs"],"all real values in the domain and all directions, every function and operator, compositions up to the stated depth",
"Tests propagate mostly direction 1 or one fixed pair of adjoints through each function at one point.",
[H+"forward/core/forward.hpp",H+"forward/core/dualnum.hpp"],
[("each overload returns the value and the chain-rule adjoint",H+"forward/core/forward.hpp"),("value/adjoint pair",H+"forward/core/dualnum.hpp")],["get_value and get_adjoint of the result"]))
L.append(P("C12","Cache binding uses exactly the advertised memory and nothing else",
"For every expression, binding it to value and adjoint buffers consumes exactly the number of slots that the expression's bind-size query reports, and evaluation in both directions reads and writes only within those slots, the variables' own storage and the expression itself; no two live quantities share a slot. Results do not depend on what the buffers contained before binding, nor on which buffers are used: binding the same expression again to fresh buffers gives the same results. Leaf variables that are not assigned to keep their values, and distinct expressions bound to distinct buffers do not affect each other.",
["programs","inputs"],"every expression kind and composition up to the stated depth, all sizes up to the stated bound, arbitrary initial buffer contents, arbitrary variable values and seeds",
"Tests compare bind sizes for a few expressions and run with generously sized zero-initialised or over-allocated buffers; overlaps, overruns and reads of stale content need every composition and arbitrary contents.",
[H+"reverse/core/bind.hpp",H+"reverse/core/value_view.hpp",H+"reverse/core/value_adj_view.hpp",H+"reverse/core/eq.hpp",H+"reverse/core/glue.hpp",H+"reverse/core/prod.hpp"],
[("recursive bind size and pointer bumping",H+"reverse/core/unary.hpp"),("placeholder gives back the root's slots and rebinds the root",H+"reverse/core/eq.hpp"),("views over raw pointers",H+"reverse/core/value_view.hpp")],
["pointers returned by bind_cache","sizes returned by bind_cache_size","buffer accesses","results"],
[("cache cursor","next free value/adjoint slot",H+"util/ptr_pack.hpp")]))
L.append(P("C13","Adjoints accumulate linearly and re-evaluation leaves no stale state",
"Backward evaluation adds to the existing adjoints of the input variables (those the program does not itself assign or update; placeholders and updated variables start each pass from zero adjoint): the increment is the seed times the gradient, exactly linear in the seed, and running differentiation k times without reset adds k times the gradient. After variable values are changed in any way, evaluating and differentiating again gives the value and gradient increment at the new values, as if the expression had been freshly built. Resetting adjoints and running again reproduces the first result.",
["histories","inputs","programs"],"every history of up to the stated number of value changes, evaluations, differentiations with arbitrary seeds and adjoint resets, on every expression kind; all values",
"Tests evaluate an expression once or twice from zero adjoints with seed 1; dependence on earlier evaluations needs arbitrary histories and seeds.",
[H+"reverse/core/eval.hpp",H+"reverse/core/value_adj_view.hpp",H+"reverse/core/var_view.hpp",H+"reverse/core/eq.hpp",H+"reverse/core/prod.hpp"],
[("leaf adjoint += seed",H+"reverse/core/var_view.hpp"),("node adjoint overwritten by each seed",H+"reverse/core/unary.hpp"),("adjoint reset",H+"reverse/core/value_adj_view.hpp")],
["values returned","adjoints of variables after each step"]))
L.append(P("C14","Constants behave like variables of the same value that receive no gradient",
"Replacing any variable of an expression by a constant, by a constant view of memory holding the same numbers, or by a plain number or Eigen object leaves the value and the gradient with respect to the remaining variables unchanged. Expressions made of constants only are folded when built to the value they would evaluate to. A constant owns its numbers (later changes to the source do not affect it) while a constant view follows the memory it views wherever the node reads it on evaluation; nodes such as the log-densities may precompute from constant operands when they are built.",
["programs","inputs"],"every function/operator and every operand position and shape where a constant is accepted, all values and seeds, integer and floating constants",
"Tests cover constants in a few positions with fixed numbers; constant operands take separately written fast paths in many nodes.",
[H+"reverse/core/constant.hpp",H+"util/type_traits.hpp",H+"reverse/core/unary.hpp",H+"reverse/core/binary.hpp",H+"reverse/core/sum.hpp",H+"reverse/core/prod.hpp",H+"reverse/core/dot.hpp",H+"reverse/core/pow.hpp",H+"reverse/stat/normal.hpp"],
[("compile-time folding of constant operands",H+"reverse/core/unary.hpp"),("precomputed statistics when operands are constant",H+"reverse/stat/normal.hpp"),("no-op backward evaluation",H+"reverse/core/constant.hpp")],
["value returned","adjoints of the remaining variables"]))
L.append(P("C15","Variables, views and bound expressions keep value semantics when copied or moved",
"Copying or moving a variable yields an independent variable with the same value and adjoint, whose later changes do not affect the source's copy and vice versa; copy assignment writes values and adjoints in place, so expressions and views already built on the target see them. Element, head and tail views and re-bound views alias exactly the elements they name, for reading, writing and adjoint accumulation. A bound expression owns its temporaries: it, a copy of it, and the result of moving it evaluate and differentiate correctly and independently, also after the original is gone or has been evaluated at other values, and so does a bound expression to which another one of the same type has been assigned.",
["histories","inputs"],"every sequence of copy, move, assignment, sub-view and evaluation steps up to the stated length over scalar, vector and matrix variables, all values, all view offsets",
"Tests copy a variable once and check a value; lifetime and aliasing depend on the sequence of operations.",
[H+"reverse/core/var.hpp",H+"reverse/core/var_view.hpp",H+"reverse/core/bind.hpp",H+"reverse/core/value_view.hpp"],
[("rebinding of the self-view after copy, move and assignment",H+"reverse/core/var.hpp"),("pointer arithmetic for sub-views",H+"reverse/core/var_view.hpp"),("owned cache buffers",H+"reverse/core/bind.hpp")],
["values and adjoints seen through each object"],
[("self-view pointers","where a variable or bound expression looks for its own storage",H+"reverse/core/var.hpp")]))
L.append(P("C16","Arbitrary compositions obey the chain rule",
"Any well-shaped expression built by nesting the library's functions, operators, reductions, conditionals, placeholders and log-densities, sharing variables and placeholders freely, evaluates to the mathematical composition and its backward evaluation adds the seed times the exact total derivative to every variable. This holds for every interface that evaluates it: separate forward and backward evaluation, combined differentiation, and explicitly bound or wrapped expressions. The reported shape and size of every (sub)expression equal those of its value.",
["programs","inputs"],"random well-typed programs from a grammar over all constructs, up to the stated depth and sizes, per-seed; all values in the domain and all seeds for each",
"Tests combine nodes in a few dozen fixed formulas; a node that mishandles a particular kind of child (lazy seeds, aliasing, shapes) is only visible in the right combination.",
[H+"reverse/core/eval.hpp",H+"reverse/core.hpp",H+"reverse/stat.hpp",H+"util/value.hpp",H+"util/shape_traits.hpp"],
[("each node seeds its children with seed times the local derivative",H+"reverse/core/unary.hpp"),("evaluation entry points",H+"reverse/core/eval.hpp")],
["value returned","adjoints of all variables","rows/cols/size of expressions"]))
L.append(P("C17","Any value type and any arithmetic constant computes over the same numbers",
"Every construct works for any floating-point value type: with single-precision reverse-mode and forward-mode variables, views, constants, caches and bound expressions, values and adjoints are those of the same expression over double, up to rounding of that type, and memory use follows that type. A constant held in another arithmetic type (int, size_t, bool, float, or an integer vector or matrix reduced to a number) enters every operator, comparison, function, condition and log-density with the number it holds: its type never truncates, wraps around or reinterprets a result that depends on a variable.",
["programs","inputs"],"every node kind over float, every operator/function/condition/log-density position with a scalar constant of each arithmetic type (integer values from small sets), all real values of the variables, all seeds",
"The tests use double almost throughout and a few integer literals; a hard-coded type or an integer subexpression is only visible with another type and particular values.",
[H+"util/type_traits.hpp",H+"reverse/core/constant.hpp",H+"reverse/core/var.hpp",H+"reverse/core/bind.hpp",H+"forward/core/forward.hpp",H+"reverse/stat/normal.hpp",H+"reverse/stat/bernoulli.hpp"],
[("common value type of operands",H+"reverse/core/binary.hpp"),("conversion of numbers and matrices to constants of their own type",H+"util/type_traits.hpp"),("buffers typed by the value type",H+"util/ptr_pack.hpp")],
["value returned","adjoints of the variables"]))
L.append(P("N01","Results are accurate to machine precision in IEEE arithmetic",
"Values and derivatives are computed to within a few units in the last place, without spurious overflow, cancellation or underflow, for all finite inputs.",
["inputs"],"all finite double inputs",
"Tests compare with a tolerance at fixed points.",[H+"reverse/core/unary.hpp",H+"reverse/stat/normal.hpp"],[("direct evaluation of the closed forms in double arithmetic",H+"reverse/core/unary.hpp")],["values and adjoints"]))
with open('/verif/properties.jsonl','w') as f:
    for p in L:
        assert len(p['title'])<=80,(p['id'],len(p['title']))
        f.write(json.dumps(p)+'\n')

#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the wording lives in one place)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if observe: d["anchors"]["observe_at"]=observe
    P.append(d)

p("C01","View operations present exactly the documented shape and elements",
  "Reshaping, squeezing, unsqueezing, transposing, slicing (by any mix of indices and ranges, with or without an explicit axis), taking a diagonal, or taking a plain view of any non-empty array yields an array whose shape and row-major elements are exactly those the operation defines, whether the source is borrowed or consumed and however the source was itself obtained. A chain of such operations behaves like the composition of the individual operations, and a reshape is refused rather than answered wrongly when it cannot be expressed on the existing layout.",
  ["inputs","programs","histories"],"for every element type, every non-empty shape, every chain of view operations and every valid argument",
  "The tests sample a few fixed 1-3 dimensional arrays and single operations; the guarantee quantifies over all shapes, argument combinations and chains of views of views.",
  ["src/common/reshape.rs","src/ndarray/reshape.rs","src/ndarray/slice.rs","src/util/index.rs","src/util/axis.rs","src/linalg/matrix_ops.rs"],
  [("Reshape trait (view/reshape/squeeze/unsqueeze/T/transpose)","src/common/reshape.rs"),("slice / slice_along","src/ndarray/slice.rs"),("diagonal family","src/linalg/matrix_ops.rs")])
p("C02","Views share memory with their source; copies are independent",
  "Every view-producing operation returns an array over the very memory cells of its source that its definition selects, so a write through any one of several overlapping views is seen by the source and by every other view selecting that cell, and by nothing else. Operations documented to copy (clone, flatten, type conversion, arithmetic, reductions, detaching) return freshly owned storage whose later changes never affect their source, nor the reverse.",
  ["programs","histories"],"for every family of arrays derived from one buffer by any history of view, copy and write operations",
  "Tests compare values after single operations; aliasing needs multi-step histories with several live views of one buffer and a check that no other cell changed.",
  ["src/ndarray/reshape.rs","src/ndarray/slice.rs","src/ndarray/clone.rs","src/ndarray/broadcast.rs","src/ndarray/astype.rs","src/linalg/matrix_ops.rs","src/linalg/einsum.rs"],
  [("reshaped_view / reshaped_view_with_offset","src/ndarray/reshape.rs"),("clone_data","src/ndarray/clone.rs"),("broadcast_to","src/ndarray/broadcast.rs")])
p("C03","Layout metadata reported for an array is truthful",
  "For every array the reported dimension count, length, element count, strides, view/owner status, contiguity and uniform-stride information agree with where its elements actually lie: an array reported contiguous has its elements adjacent in row-major order, a reported uniform stride is the actual distance between every two consecutive elements, and freshly created arrays are owned, contiguous and row-major. The flat data slice and the data vector, when available, contain exactly the array's elements in row-major order and are refused for arrays that are not contiguous (or, for the vector, not owners).",
  ["inputs","programs","histories"],"for every array reachable by any chain of constructors, views, broadcasts and consuming operations",
  "Metadata is only asserted on a handful of layouts; single-length axes, repeated (broadcast) axes and views of views are the layouts where it goes wrong and they are not enumerated.",
  ["src/common/methods.rs","src/ndarray/methods.rs","src/ndarray/slice.rs","src/ndarray/iterator/collapse_contiguous.rs","src/ndarray/flags.rs","src/ndarray/constructors.rs"],
  [("contiguity / uniform stride detection","src/ndarray/iterator/collapse_contiguous.rs"),("flag update for views","src/ndarray/slice.rs"),("data_slice / into_data_vector","src/ndarray/methods.rs")])
p("C04","Iteration visits every element or sub-array once, in order; indexing agrees",
  "Flat iteration over any array yields each of its elements exactly once in row-major order; iterating over the first axis, along a chosen axis or over several axes yields, in row-major order of those axes, exactly the sub-arrays obtained by fixing them. Reading (or writing) the element at a multi-index reaches the element that iteration places at that position, for every in-range multi-index of every array, and any index outside the shape or with the wrong number of components is refused.",
  ["inputs","programs"],"for every layout (contiguous, strided, transposed, broadcast, diagonal, sliced), every axis selection and every index",
  "Tests iterate a few arrays along one axis; multi-axis iteration, repeated axes and views of views are combinatorial.",
  ["src/ndarray/iterator/flat_index_generator.rs","src/ndarray/iterator/tensor_iterator.rs","src/ndarray/iterator/buffer_iterator.rs","src/ndarray/iterator/iterators.rs","src/ndarray/iterator/util.rs","src/ndarray/index_impl.rs"],
  [("flat index generation","src/ndarray/iterator/flat_index_generator.rs"),("sub-array iteration","src/ndarray/iterator/tensor_iterator.rs"),("indexing","src/ndarray/index_impl.rs")])
p("C05","Broadcasting follows the NumPy rules exactly",
  "Two shapes combine if and only if, aligned at their last axes, each pair of lengths is equal or contains a 1, and the result has the larger length on each axis; incompatible shapes are always refused. Broadcasting an array to a shape repeats its elements along the new and stretched axes without copying and the result cannot be written through; every binary operation on operands of different shapes gives the result of first broadcasting both.",
  ["inputs","configurations"],"for every pair of shapes and layouts of the two operands",
  "Tests list a few compatible pairs; the rule quantifies over all pairs of shapes including padding on either side, ones on both sides and already broadcast operands.",
  ["src/ndarray/broadcast.rs","src/ndarray/binary_ops.rs","src/util/functions.rs"],
  [("broadcast_shapes / broadcast_stride / broadcast_to","src/ndarray/broadcast.rs"),("binary operators","src/ndarray/binary_ops.rs")])
p("C06","Element-wise operators apply the scalar operation at every position",
  "For each arithmetic, remainder and bitwise operator and negation, each element of the result is the element type's own scalar operation applied to the corresponding elements of the operands, in a newly owned row-major array of the broadcast shape. This is independent of element type, operand sizes and memory layouts, of whether the operands are passed by value, by reference or as a plain scalar, and leaves borrowed operands unchanged.",
  ["inputs","configurations"],"for every operator, element type, value, size, operand form and pair of memory layouts",
  "The operators are implemented by many stride-specialised loops per type; tests visit few (type, operator, layout, size) combinations and few values.",
  ["src/ops/binary_ops.rs","src/ops/binary_op_add.rs","src/ops/binary_op_sub.rs","src/ops/binary_op_mul.rs","src/ops/binary_op_div.rs","src/ops/unary_ops.rs","src/ndarray/binary_ops.rs","src/ndarray/unary_ops.rs"],
  [("stride-specialised binary loops","src/ops/binary_ops.rs"),("operator front ends","src/ndarray/binary_ops.rs"),("negation","src/ops/unary_ops.rs")])
p("C07","In-place updates change exactly the target's elements",
  "A compound assignment, fill, zeroing or indexed write changes each element of its target to the specified value (for compound assignment, the operator applied to the old element and the corresponding right-hand element, broadcast to the target's shape) and changes no other memory, even when the target is a strided, transposed or offset view. An update that cannot be performed (incompatible right-hand shape, read-only target) is refused and changes nothing.",
  ["inputs","programs","histories"],"for every operator, element type, target layout, right-hand operand form and layout",
  "Existing tests update contiguous arrays; that the surrounding memory of a view is untouched, for every layout, is not examined.",
  ["src/ndarray/assign_ops.rs","src/ndarray/fill.rs","src/ops/fill.rs","src/ndarray/index_impl.rs"],
  [("compound assignment","src/ndarray/assign_ops.rs"),("fill","src/ops/fill.rs"),("indexed write","src/ndarray/index_impl.rs")])
p("C08","Reductions equal the fold over exactly the reduced elements",
  "Sum, product, minimum, maximum, smallest and largest magnitude and mean, over the whole array or over any set of distinct axes (negative axes counting from the end where supported), equal the corresponding fold over exactly the elements being reduced, with the remaining axes keeping their order in the result. The result does not depend on the memory layout of the array, and duplicate or out-of-range axes are refused.",
  ["inputs","configurations"],"for every element type, shape, layout, axis set and element values (including extreme ones for the order-based reductions)",
  "Tests use small contiguous arrays of a few types; the implementations branch on layout and axis structure.",
  ["src/ndarray/reduce.rs","src/ops/reduce_sum.rs","src/ops/reduce_product.rs","src/ops/reduce_min.rs","src/ops/reduce_max.rs","src/ops/reduce_min_magnitude.rs","src/ops/reduce_max_magnitude.rs","src/util/partial_ord.rs"],
  [("axis reductions","src/ndarray/reduce.rs"),("whole-array reductions","src/ops/")])
p("C09","Einsum evaluates its subscript expression",
  "An Einstein summation over any number of operands yields, for every assignment of the output labels, the sum over all assignments of the remaining labels of the product of the operands' elements, for every choice of labels (repeated within an operand, shared between operands, permuted or dropped in the output) and every operand memory layout. The view form returns a view with those elements exactly when no label has to be summed; malformed subscripts, label-size conflicts and operand-count mismatches are refused.",
  ["inputs","configurations"],"for every subscript expression, operand count, shapes, layouts and element type",
  "The code picks among specialised loops by operand count, label count and stride pattern after reordering axes; tests cover a fixed list of expressions on contiguous operands.",
  ["src/linalg/einsum.rs","src/linalg/specialized_einsum.rs","src/linalg/sum_of_products.rs","src/ndarray/iterator/multi_flat_index_generator.rs","src/ops/dot_product.rs"],
  [("subscript parsing and axis ordering","src/linalg/einsum.rs"),("specialised loops","src/linalg/specialized_einsum.rs"),("inner kernels","src/linalg/sum_of_products.rs")])
p("C10","Matrix products, dot products, traces and diagonals match their definitions",
  "Dot product, matrix-vector, matrix-matrix and batched matrix products, traces and diagonals (with offsets and along chosen axes) equal their mathematical definitions for operands of any memory layout, including transposed, sliced, diagonal and broadcast views. Operands whose dimensions do not fit the operation are refused.",
  ["inputs","configurations"],"for every element type, matrix sizes (including 1 and non-square), layouts, offsets and axis pairs",
  "Tests multiply a few small matrices; offset traces of strided views and products of arbitrary views are not enumerated.",
  ["src/linalg/matrix_ops.rs","src/linalg/einsum.rs","src/ops/dot_product.rs"],
  [("matmul / bmm / dot / trace / diagonal","src/linalg/matrix_ops.rs")])
p("C11","Back-propagation computes the true gradient",
  "After back-propagating from any tensor (with an implicit all-ones or an explicit incoming gradient), the gradient reported by every leaf that requires gradients is the exact derivative of the seeded output with respect to that leaf, for every computation built from the supported operations: arithmetic with tensors or scalars, negation, dot, matrix, matrix-vector and batched products, and reshaping or transposing views. This includes operands broadcast against each other, tensors used several times, operands that are views, and graphs mixing leaves with constants.",
  ["programs","inputs"],"for every expression graph over the supported operations, every choice of leaves requiring gradients and every operand shape",
  "Tests differentiate a fixed list of one- or two-operation expressions; correctness must hold for every graph, including broadcasting and sharing.",
  ["src/autograd/add_backwards.rs","src/autograd/sub_backwards.rs","src/autograd/mul_backwards.rs","src/autograd/div_backwards.rs","src/autograd/neg_backwards.rs","src/autograd/dot_backwards.rs","src/autograd/matrix_vec_backwards.rs","src/autograd/matrix_product_backwards.rs","src/autograd/bmm_backwards.rs","src/autograd/reshape_backwards.rs","src/autograd/transpose_backwards.rs","src/autograd/util.rs","src/tensor/autograd.rs"],
  [("backward functions","src/autograd/"),("broadcast gradient reduction","src/autograd/util.rs")])
p("C12","Gradient bookkeeping: requirement, leaves, accumulation and reset",
  "A tensor requires gradients exactly if the user said so or it was computed from a tensor that did at that time; it is a leaf exactly if it does not require gradients or was created by the user. Gradients start at zero, add up over successive backward passes in any order until reset to zero (which affects that leaf only), are available only on tensors the user marked as requiring them, and have the tensor's shape; switching the requirement off and on again starts from zero, and disabling it on a tensor cuts that tensor's own history without disturbing others.",
  ["programs","histories"],"for every history of marking, computing, back-propagating, zeroing and re-marking tensors",
  "Tests perform one or two backward passes; accumulation and flag propagation are properties of whole histories.",
  ["src/tensor/autograd.rs","src/tensor/constructors.rs","src/tensor/ops.rs","src/tensor/reshape.rs","src/tensor/matrix_ops.rs","src/autograd/accumulate_grad.rs","src/autograd/none_backwards.rs","src/autograd/identity_backwards.rs"],
  [("requires_grad / is_leaf / gradient / zero_gradient","src/tensor/autograd.rs"),("leaf accumulation","src/autograd/accumulate_grad.rs")])
p("C13","Computation history is isolated from what happens to tensors afterwards",
  "Back-propagation never changes the value of any tensor or array, and gradients depend only on the values the computation used: dropping, consuming or converting any tensor (including the source of a view that took part in the computation, intermediate results, or the leaves' other uses) after the computation and before back-propagating does not change the result, nor do other independent computations. Repeating back-propagation from the same tensor contributes the same amount each time.",
  ["programs","histories"],"for every history of building, dropping, consuming and back-propagating tensors",
  "Lifetime-dependent faults need particular histories (view, compute, drop the source, back-propagate); tests keep all tensors alive.",
  ["src/tensor/reshape.rs","src/tensor/methods.rs","src/ndarray/astype.rs","src/autograd/mul_backwards.rs","src/autograd/matrix_product_backwards.rs"],
  [("saved operands","src/autograd/"),("tensor views","src/tensor/reshape.rs"),("conversion to arrays","src/tensor/methods.rs")])
p("C14","Array memory is freed exactly once, never leaked and never over-run",
  "The storage of an owned array is released exactly once, when its last owner goes away (by drop, by being consumed by an operation, or with the vector extracted from it); dropping or consuming views never releases it and consuming view operations transfer ownership. No sequence of safe operations reads or writes outside the storage of a live array, and when all arrays, tensors and computation histories of a program are gone all their memory has been returned.",
  ["programs","histories"],"for every history of creating, viewing, consuming, computing and dropping arrays and tensors permitted by the borrow rules",
  "Tests never look at allocation; leaks and out-of-bounds accesses do not fail assertions.",
  ["src/ndarray/constructors.rs","src/ndarray/reshape.rs","src/ndarray/methods.rs","src/ndarray/slice.rs","src/tensor/methods.rs"],
  [("drop","src/ndarray/constructors.rs"),("consuming reshape","src/ndarray/reshape.rs"),("into_data_vector","src/ndarray/methods.rs")])
p("C15","Constructors produce exactly the requested shape and values",
  "Arrays and tensors built from nested vectors or fixed-size arrays have the nesting's shape and its elements in row-major order, and ragged nestings at any depth or empty data are refused. Constant constructors (a value, zeros, ones, a scalar) fill every position; ranges with a start, stop and step contain exactly the values start, start+step, ... before stop, and evenly spaced sequences contain exactly the requested number of values from start to stop (inclusive or exclusive).",
  ["inputs","configurations"],"for every element type, nesting depth and form, shape and range parameters",
  "Tests use a few literals; nesting combinations, ragged inputs and range end-point arithmetic are unbounded.",
  ["src/common/constructors.rs","src/util/flatten.rs","src/util/homogenous.rs","src/util/shape.rs","src/util/nested.rs","src/util/to_vec.rs","src/util/dtype.rs"],
  [("constructors","src/common/constructors.rs"),("nested data","src/util/flatten.rs, homogenous.rs, shape.rs, nested.rs")])
p("C16","Equality, conversion and printing depend only on shape and elements",
  "Two arrays or tensors compare equal exactly if their shapes are identical and all corresponding elements are equal, whatever their memory layouts and whether compared by value or by reference; type conversion preserves shape and converts each element individually, refusing values the target cannot represent. The debug text of an array lists its elements in row-major order in brackets nested according to its shape.",
  ["inputs","configurations"],"for every pair of shapes, layouts, element values (including not-a-number) and element type pairs",
  "Tests compare mostly contiguous arrays of equal shape.",
  ["src/ndarray/equals.rs","src/tensor/equals.rs","src/ndarray/astype.rs","src/ndarray/print.rs","src/tensor/print.rs"],
  [("equality","src/ndarray/equals.rs"),("astype","src/ndarray/astype.rs"),("Debug","src/ndarray/print.rs")])
p("C17","Invalid requests are refused and have no effect",
  "Requests outside an operation's domain (axis out of range, slice bounds or index outside the array, element-count-changing reshape, transposing a missing axis, diagonal offset beyond the matrix, identical diagonal axes, incompatible shapes, value of a multi-element array, mismatched incoming gradient shape) panic and never return an array. After such a refusal every other live array and tensor still has its previous shape, elements and gradient.",
  ["inputs","programs","histories"],"for every operation, every invalid argument and every program state in which it is attempted",
  "Tests assert a few panics on fresh arrays and stop there; that nothing was damaged and that every boundary value is classified correctly is not examined.",
  ["src/ndarray/slice.rs","src/ndarray/index_impl.rs","src/common/reshape.rs","src/util/axis.rs","src/ndarray/broadcast.rs","src/linalg/matrix_ops.rs","src/linalg/einsum.rs","src/tensor/autograd.rs"],
  [("argument checks","src/util/axis.rs, src/ndarray/slice.rs, src/ndarray/index_impl.rs, src/common/reshape.rs")])
p("C18","Tensor operations compute the same forward values as array operations",
  "Every tensor operation (arithmetic with tensors or scalars in every value/reference form, negation, dot, matrix and batched products, view, reshape, squeeze, unsqueeze and transpose by reference or by consuming) yields the shape and element values that the corresponding array operation yields on the operands' values, regardless of whether gradients are required, of what else shares the operands, and of the operands' layouts. Reading a tensor's value, array, detached copy or extracted array always gives those same values.",
  ["inputs","programs","histories"],"for every chain of tensor operations, with and without gradients, shared or unshared operands",
  "Tests check tensors with few operations; consuming operations behave differently when the tensor is shared with a computation history, which needs multi-step programs.",
  ["src/tensor/ops.rs","src/tensor/matrix_ops.rs","src/tensor/reshape.rs","src/tensor/methods.rs","src/tensor/autograd.rs"],
  [("operator front ends","src/tensor/ops.rs"),("tensor views","src/tensor/reshape.rs")])
p("C19","Random constructors stay inside their documented ranges",
  "Random arrays have exactly the requested shape; uniform samples lie in [0,1) or [low, high), random integers lie in [low, high) and take every value in that range with equal probability, and normal samples are finite, centred at zero with unit spread. An empty integer range is refused, and separate calls and separate elements are not copies of one another.",
  ["inputs","configurations"],"for every shape, element type and range",
  "The samples are random: a test sees one draw and cannot judge range end points or which values are reachable.",
  ["src/common/random.rs"],
  [("randn / rand / uniform / randint","src/common/random.rs")])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))

#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the long text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": ["src/" + f for f in files], "mechanism": [{"name": n, "where": "src/" + w} for n, w in mech],
                          **({"state": state} if state else {}), "observe_at": observe or [], "hook_needed": None}})

p("C01", "Shape-changing operations keep elements, order and row-major strides",
  "reshape, view, flatten, unflatten, squeeze and unsqueeze (both the copying and the in-place forms) give exactly the shape their arguments describe, with -1 inferred and negative dimensions counted from the end, keep the number of elements and the row-major order of every value, and leave strides equal to the row-major strides of the new shape. A request that cannot be satisfied (element count differs, two inferred dimensions, dimension out of range) leaves the tensor unchanged.",
  ["inputs"], "every shape up to the size bound, every argument (valid or not), every element value",
  "the unit tests check a handful of fixed shapes with valid arguments; the argument space (inferred sizes, zero sizes, negative and out-of-range dimensions) is never swept",
  ["Tensor/TensorImpl.cpp", "Tensor/Tensor.cpp", "Operation/OpTransform.cpp", "Function/FuncTransform.h"],
  [("reshape_/flatten_/unflatten_/squeeze_/unsqueeze_", "Tensor/TensorImpl.cpp"), ("computeStrides/computeNumel", "Tensor/TensorImpl.cpp")], ["Tensor::shape", "Tensor::strides", "Tensor::toList"])

p("C02", "Element-wise operations broadcast shapes and operands correctly",
  "For any two shapes, a binary element-wise operation succeeds exactly when the shapes are broadcast-compatible (right-aligned, sizes equal or one of them 1), its result has the broadcast shape, and every result element is computed from the operand elements that right-aligned broadcasting designates. In-place forms keep the shape of the tensor they update.",
  ["inputs"], "every pair of shapes up to rank 4 with small sizes, every element value",
  "tests use a few same-shape and one-sided broadcasts; the combinations of rank difference and size-1 dimensions are not swept",
  ["Tensor/TensorIterator.cpp", "Tensor/TensorIterator.h", "Operation/OpElemWiseCpu.h"],
  [("TensorIterator::broadcastShape/setupBroadcast", "Tensor/TensorIterator.cpp"), ("binaryOp kernels", "Operation/OpElemWiseCpu.h")], ["op::add ...", "Tensor::shape"])

p("C03", "Element-wise operations compute the right value in every element type",
  "Every element-wise operation (arithmetic, comparison, logical, minimum, maximum, pow, sqrt, square, sin, cos, sign, abs, neg, relu, gelu, silu, clamp and so on), in its tensor-tensor, tensor-scalar, scalar-tensor, in-place and out-parameter forms, returns for every element the value its mathematical definition gives in that element type, and comparisons return Bool tensors. All forms of one operation agree.",
  ["inputs"], "every element value of the supported element types, bit-exact for integer and for directly rounded float operations",
  "tests use a few friendly floats; signs, zeros, NaN, infinities, integer extremes and mixed operand orders are not covered",
  ["Operation/OpElemWiseCpu.h", "Operation/OpElemWiseCpu.cpp", "Operation/OpElemWise.h", "Tensor/Tensor.cpp"],
  [("Op structs and unary/binary kernels", "Operation/OpElemWiseCpu.h"), ("scalar operator wrappers", "Tensor/Tensor.cpp")], ["Tensor operators", "op::*"])

p("C04", "A write through one tensor never changes another tensor's value",
  "After clone, reshape, view, split, narrow, chunk, concat, arithmetic and every other operation that returns a new tensor, an in-place operation on one of the tensors (fill, arithmetic assignment, masked fill, scatter, index put, set-gradient and so on) changes only that tensor: every other tensor, including those that internally share its buffer, keeps its values (copy_ into a tensor is excepted: it writes through by design of the gradient buckets). In-place operations on a tensor that shares a buffer still take effect on the tensor itself.",
  ["histories", "inputs"], "every pair (operation producing a sharing tensor, in-place operation), on either side, for every element value",
  "tests never mutate a tensor and then look at one that shares its buffer, except for one clone example",
  ["Tensor/TensorImpl.cpp", "Tensor/Storage.cpp", "Operation/OpFillingCpu.h", "Operation/OpElemWiseCpu.h", "Operation/OpTransform.cpp"],
  [("copyOnWrite", "Tensor/TensorImpl.cpp"), ("in-place kernels calling copyOnWrite", "Operation/OpElemWiseCpu.h")], ["Tensor::toList"])

p("C05", "Rearranging operations move every element to its documented place",
  "permute, transpose, t, concat, stack, hstack, vstack, split, chunk, narrow, expand, repeat-interleave, tril and triu give the documented result shape and place each source element exactly where the index equation of the operation says, for every dimension argument including negative ones. Splitting and re-concatenating, and permuting with a permutation and its inverse, give back the original tensor.",
  ["inputs"], "every shape up to rank 4 with small sizes, every valid argument, every element value",
  "tests check single shapes, mostly rank 2 and 3, and positive dimensions",
  ["Operation/OpTransform.cpp", "Operation/OpTransformCpu.h", "Operation/OpTransform.h"],
  [("permute/transpose/triangular/expand kernels", "Operation/OpTransformCpu.h"), ("concat/stack/split/chunk/narrow", "Operation/OpTransform.cpp")], ["op::*", "Tensor::toList"])

p("C06", "Indexing reads and writes exactly the addressed elements",
  "index, advanced index, index-put, advanced index-put, gather, scatter and index-select address exactly the elements their index arguments name (negative indices count from the end): reads return those elements in order, writes change those elements and no others. An index outside the dimension never reads or writes memory outside the tensor.",
  ["inputs"], "every index value (valid, negative and out of range) for shapes up to the bound, every element value",
  "tests use a handful of constant in-range indices",
  ["Operation/OpTransform.cpp", "Operation/OpTransformCpu.h"],
  [("indexOpImpl/indexPutOpImpl", "Operation/OpTransform.cpp"), ("indexAdvance/indexPutAdvance/gather/scatter/indexSelect kernels", "Operation/OpTransformCpu.h")], ["op::index", "op::gather", "op::scatter"])

p("C07", "Reductions compute the mathematical result over exactly the named dimensions",
  "sum, mean, min, max, argmin, argmax, var and var-mean, over all elements, one dimension or several dimensions, with and without kept dimensions, return the value of their definition over exactly the reduced elements, in a tensor of the documented shape. min and max return a value that occurs in the input, with an index pointing at it.",
  ["inputs"], "every shape up to rank 4 with small sizes, every dimension set, every element value",
  "tests use two or three fixed matrices; ties, infinities, size-1 and multi-dimension combinations are not covered",
  ["Operation/OpReduceCpu.h", "Operation/OpReduceCpu.cpp", "Operation/OpReduce.cpp"],
  [("reduce kernels", "Operation/OpReduceCpu.h"), ("retrieveReduceShape", "Operation/OpReduce.cpp")], ["Tensor::sum", "Tensor::max"])

p("C08", "Matrix products compute the dot products for every layout",
  "matmul (vector, matrix and batched operands, with either operand transposed), dot, linear, and im2col/col2im give, in the documented result shape, exactly the sums of products of the elements their definitions name; batches are broadcast like element-wise operands. Incompatible inner dimensions are rejected.",
  ["inputs"], "every operand shape combination up to the bound and every transposition, every element value (real arithmetic)",
  "tests compare a few constant matrices; transposed and batched combinations are sampled once each",
  ["Operation/OpLinalg.cpp", "Operation/OpLinalgCpu.h", "Operation/OpLinalgCpu.cpp"],
  [("matmulOpImpl, dot, im2col, col2im", "Operation/OpLinalg.cpp"), ("gemm", "Operation/OpLinalgCpu.h")], ["Tensor::matmul", "op::dot"])

p("C09", "Convolution and pooling compute their defining sums and maxima",
  "conv2d (any number of input and output channels, batch, kernel, stride, padding, with or without bias) and max-pooling return for every output position the defining sum of products, respectively the maximum of the window, in the documented output shape. Padding never contributes a value to a maximum.",
  ["inputs", "configurations"], "batch, channels, spatial sizes, kernel, stride and padding within the bound, every element value (real arithmetic)",
  "the tests only use one output channel and one pooling channel with positive data",
  ["Function/FuncNNLayer.h", "Operation/OpNNLayer.cpp", "Operation/OpLinalgCpu.h"],
  [("FuncConv2D/FuncMaxPool2D", "Function/FuncNNLayer.h"), ("im2col", "Operation/OpLinalgCpu.h")], ["function::conv2d", "function::maxPool2d"])

p("C10", "Neural-network operators compute their defining formulas",
  "softmax, log-softmax, layer norm, RMS norm, embedding, rotary position embedding, scaled dot-product attention, fused SiLU-multiply, silu, gelu and relu return the value of their defining formula for every element, along the documented dimension, for every tensor rank they accept. Softmax-type operations give the same result when a constant is added to a whole row.",
  ["inputs"], "every shape and dimension argument within the bound, every element value (real arithmetic with exp, sqrt, sin, cos, log as uninterpreted functions)",
  "tests compare a few constant inputs with stored numbers",
  ["Operation/OpNNLayerCpu.h", "Operation/OpNNLayer.cpp", "Function/FuncActivation.h", "Function/FuncNNLayer.h", "Operation/OpFusedCpu.h"],
  [("softmax/logSoftmax/layerNorm/rmsNorm/embedding/rope kernels", "Operation/OpNNLayerCpu.h")], ["op::softmax", "function::layerNorm"])

p("C11", "Losses equal their definition under every reduction",
  "Mean-squared-error and negative-log-likelihood losses return the definition's value under the none, sum and mean reductions, for every batch size, class count and target. Targets outside the class range (negative ones count from the end, as in indexing) are rejected rather than read out of bounds.",
  ["inputs"], "every element value and target within the size bound, each reduction",
  "tests use one constant batch per reduction",
  ["Function/FuncLoss.h", "Operation/OpLossCpu.h", "Module/Loss.cpp"],
  [("mse/nll kernels", "Operation/OpLossCpu.h")], ["function::mseLoss", "function::nllLoss"])

p("C12", "Each differentiable operation's gradient is its true derivative",
  "For every operation that can be differentiated, calling backward with an arbitrary upstream gradient sets, for every input that requires a gradient, the vector-Jacobian product of that operation at that point: same shape as the input, broadcast operands summed over the broadcast dimensions, inputs that do not require a gradient untouched.",
  ["inputs"], "every element value and upstream gradient, operand shapes (including broadcast) within the bound",
  "tests use all-ones upstream gradients and a few constants, so a wrong factor, a lost upstream gradient or a transposed layout goes unnoticed",
  ["Function/FuncElemWise.h", "Function/FuncActivation.h", "Function/FuncTransform.h", "Function/FuncReduce.h", "Function/FuncNNLayer.h", "Function/FuncLoss.h", "Operation/OpLossCpu.h", "Operation/OpNNLayerCpu.h", "Operation/OpElemWiseCpu.h"],
  [("Func*::backward", "Function/FuncElemWise.h"), ("backward kernels", "Operation/OpElemWiseCpu.h")], ["Tensor::grad"])

p("C13", "Backward delivers every path's contribution exactly once",
  "In any graph of differentiable operations - shared sub-expressions, diamonds, repeated use of one tensor, several inputs, several roots - backward leaves in every leaf the sum over all paths of the chain-rule products, runs every recorded operation after all of its consumers and exactly once, and repeated backward calls add up in the leaves until the gradient is cleared (an operation that releases its saved data on the first pass refuses a second one). Forward values and the caller's gradient tensor are never changed.",
  ["programs", "histories", "inputs"], "all graphs up to the node bound built from the differentiable operations, every leaf value",
  "tests contain a few fixed small graphs",
  ["Tensor/AutogradMeta.cpp", "Tensor/AutogradMeta.h", "Tensor/Tensor.cpp", "Tensor/Function.cpp", "Tensor/Function.h"],
  [("AutogradMeta::backward/buildBackwardGraph", "Tensor/AutogradMeta.cpp"), ("addGrad", "Tensor/AutogradMeta.cpp")], ["Tensor::grad", "Tensor::backward"])

p("C14", "Gradient recording follows requires-grad, no-grad and leaf rules",
  "A result requires a gradient exactly when recording is enabled and at least one of its inputs requires one; nothing is recorded inside a no-grad scope, and nested scopes restore the mode they found on every exit. Leaf status, gradient clearing and gradient hooks (run once per delivered gradient, in order, and not after removal) follow the documented rules.",
  ["programs", "histories"], "every operation of the public API, every nesting of the guards and requires-grad combination, hook add/remove sequences within the bound",
  "tests check one or two operations in one mode",
  ["Tensor/Function.h", "Tensor/NoGradGuard.h", "Tensor/NoGradGuard.cpp", "Tensor/AutogradMeta.cpp", "Tensor/Tensor.cpp"],
  [("NoGradGuard", "Tensor/NoGradGuard.h"), ("Function::apply", "Tensor/Function.h"), ("hooks", "Tensor/AutogradMeta.cpp")], ["Tensor::requiresGrad", "Tensor::isLeaf", "Tensor::gradFn"])

p("C15", "Optimizers apply their published update rule on every step",
  "SGD (momentum, dampening, Nesterov, weight decay), Adagrad, RMSprop (centered, momentum), AdaDelta, Adam and AdamW (with and without AMSGrad) change each parameter at each step exactly as their published update rule says, for every hyper-parameter setting and any sequence of gradients; parameters without a gradient stay unchanged and the gradients themselves are not modified. zeroGrad clears every parameter's gradient.",
  ["inputs", "configurations", "histories"], "every parameter value, gradient sequence (up to the step bound) and hyper-parameter value, every flag combination (real arithmetic)",
  "tests run one default configuration per optimizer for two steps; Nesterov, centered, AMSGrad and parameters without gradients are never run",
  ["Optimizer.cpp", "Optimizer.h"], [("Optimizer::step, *::doStep", "Optimizer.cpp")], ["Optimizer::step"])

p("C16", "The step scheduler gives the documented learning rate at every epoch",
  "After any number of scheduler steps the optimizer's learning rate equals the initial rate multiplied by gamma once for each completed period of step-size epochs, for every period and factor, whatever optimizer steps happened in between.",
  ["histories", "configurations"], "every step size and number of epochs within the bound, every rate and gamma",
  "one configuration is tested for a few epochs", ["Scheduler.cpp", "Scheduler.h", "Optimizer.h"], [("Scheduler::step/StepLR::getLr", "Scheduler.cpp")], ["Optimizer::getLr"])

p("C17", "Saved models load back identically",
  "Saving any set of named tensors and loading them into a matching set restores every element bit for bit, for every element type, shape and name, independent of the order of names; tensors whose name or layout does not match stay unchanged. Loading changes only the tensors it is given.",
  ["inputs", "histories"], "every set of up to the bound of tensors (names, element types, shapes, bit patterns)",
  "tests save and load one or two models and compare with themselves",
  ["Serializer.cpp", "Serializer.h", "Utils/MMapUtils.cpp", "Module/Module.h"], [("Serializer::save/load", "Serializer.cpp")], ["save", "load"])

p("C18", "Loading a damaged or hostile model file never corrupts memory",
  "Loading a file with arbitrary contents - truncated at any byte, with any header, count, length, offset, rank or size field - never reads or writes outside the file contents and the destination tensors, and always terminates. A failed load reports failure or leaves the remaining tensors unchanged.",
  ["inputs", "crash_points"], "every file of up to the byte bound; every truncation and field value of a valid file",
  "no test loads a damaged file",
  ["Serializer.cpp", "Utils/MMapUtils.cpp"], [("Serializer::load bounds checks", "Serializer.cpp")], ["load"])

p("C19", "Data loading visits every sample exactly once per epoch",
  "For every dataset size, batch size, shuffle and drop-last setting, one pass over a data loader yields batches whose samples together are each dataset index exactly once (except the last partial batch when it is dropped), in order when not shuffling, and the reported number of batches equals the number delivered. Each batch stacks the samples in that order, and a second pass starts afresh.",
  ["inputs", "configurations", "histories"], "every dataset size, batch size and flag combination within the bound; every outcome of the random engine",
  "tests use two fixed sizes and do not check shuffled coverage",
  ["Data/DataLoader.h", "Data/Sampler.h", "Data/Dataset.h"], [("DataLoader::Iterator", "Data/DataLoader.h"), ("SequentialSampler/RandomSampler", "Data/Sampler.h")], ["DataLoader::begin/end/size"])

p("C20", "Distributed sampling partitions the dataset across ranks",
  "For every dataset size, number of ranks and drop-last setting, all ranks receive equally many indices, every index is in range, together they cover every sample (when not dropping) and none twice beyond the documented padding, and all ranks agree on one shuffle per epoch seed.",
  ["inputs", "configurations"], "every dataset size and rank count within the bound; every shuffle",
  "the distributed sources are not even compiled in the tested configuration",
  ["Distributed/DistributedSampler.cpp", "Distributed/DistributedSampler.h"], [("DistributedSampler", "Distributed/DistributedSampler.cpp")], ["DistributedSampler::indices"])

p("C21", "MNIST files are decoded faithfully and rejected when malformed",
  "The MNIST reader returns, for a well-formed pair of image and label files, exactly the pixel values scaled to [0,1] and the labels in file order; transforms are applied to each image. For any other contents (wrong magic, wrong size fields, truncated at any byte) it never reads outside the data, never divides by zero and never delivers samples that are not in the file.",
  ["inputs", "crash_points"], "every header and content of files up to the byte bound, every truncation",
  "no test constructs a malformed file", ["Data/DatasetMNIST.cpp", "Data/DatasetMNIST.h", "Data/Transform.h"], [("loadImages/loadLabels", "Data/DatasetMNIST.cpp")], ["DatasetMNIST::getItem/size"])

p("C22", "The caching allocator never hands out overlapping or undersized blocks",
  "For every sequence of allocations and frees of any sizes, each returned block is aligned, at least as large as requested, and disjoint from every block still in use; freed memory becomes reusable, neighbouring free blocks merge, and releasing everything returns every byte to the underlying allocator.",
  ["histories", "inputs"], "every sequence of allocate and free up to the length bound with symbolic sizes, and one step from small symbolic states",
  "tests run a few fixed sequences of sizes",
  ["Tensor/CachedAllocator.cpp", "Tensor/CachedAllocator.h", "Tensor/Allocator.cpp"], [("CachedAllocatorImpl::allocate/deallocate", "Tensor/CachedAllocator.cpp")], ["Allocator::allocate"])

p("C23", "Half and BFloat16 conversions are correctly rounded and lossless back",
  "Converting any 32-bit float to the 16-bit types gives the nearest representable value, ties to even, with overflow to infinity, subnormals handled and NaN kept NaN; converting any 16-bit value to float is exact, so a round trip returns the same bits. Arithmetic and comparison of the 16-bit types agree with float arithmetic rounded once.",
  ["inputs"], "all 2^32 float patterns and all 2^16 patterns of each 16-bit type",
  "tests try a dozen values", ["Utils/Half.h", "Utils/BFloat16.h"], [("float<->half bits", "Utils/Half.h"), ("round_to_nearest_even", "Utils/BFloat16.h")], ["Half(float)", "float(Half)"])

p("C24", "Element-type casts and scalars keep the value",
  "Casting a tensor between element types gives for every element the value that the language conversion of that element gives, leaves the source unchanged, keeps the shape, and casting to the same type returns the same values; scalars keep their value and kind through creation and extraction, and item and list extraction return the stored values.",
  ["inputs"], "every element value for every pair of element types", "tests cast a few values between a few types",
  ["Operation/OpTransformCpu.cpp", "Tensor/Scalar.h", "Tensor/Tensor.cpp", "Tensor/DType.h"], [("dtypeCast", "Operation/OpTransformCpu.cpp"), ("Scalar", "Tensor/Scalar.h")], ["Tensor::to", "Tensor::item"])

p("C25", "Factory and fill functions produce the documented contents",
  "empty, scalar, zeros, ones, full, arange, linspace, eye-like and *Like factories and the in-place fills give tensors of the requested shape, element type and options with the documented contents; arange contains exactly the values start, start+step, ... below stop, and masked fill changes exactly the selected elements.",
  ["inputs"], "every fill value, range argument and mask within the size bound", "tests create a few constant tensors",
  ["Tensor/Tensor.cpp", "Tensor/Tensor.h", "Operation/OpFillingCpu.h"], [("arange/linspace/fill kernels", "Tensor/Tensor.h")], ["Tensor::arange", "Tensor::full"])

p("C26", "Sort, top-k, cumulative sum and sampling obey their contracts",
  "Sort returns a permutation of each slice in order with matching indices; top-k returns the k extreme elements in order with their indices; cumulative sum returns prefix sums; multinomial draws in-range indices with non-zero weight, without repetition when sampling without replacement. All act along the documented dimension and leave the input unchanged.",
  ["inputs"], "every element value (ties, infinities) and every random outcome within the size bound", "tests use distinct constants",
  ["Operation/OpSamplingCpu.h", "Function/FuncSampling.h"], [("topk/sort/cumsum/multinomial kernels", "Operation/OpSamplingCpu.h")], ["op::sort", "op::topk"])

p("C27", "Random fills are seeded, reproducible and in range",
  "After setting the same seed, the same sequence of random operations yields the same values, and different calls advance one shared stream; uniform values lie in the requested range (rand in [0,1)), Bernoulli values are 0 or 1 (always 0 for p=0 and 1 for p=1), and dropout keeps elements scaled by 1/(1-p) or zeroes them, and is the identity in evaluation mode.",
  ["inputs", "histories"], "every engine state, range and probability within the bound", "tests only check a few statistical properties with one seed",
  ["Utils/RandomGenerator.h", "Utils/RandomGenerator.cpp", "Operation/OpFillingCpu.h", "Operation/OpNNLayerCpu.h"], [("RandomGeneratorCPU", "Utils/RandomGenerator.h"), ("fillUniform/fillBernoulli", "Operation/OpFillingCpu.h")], ["manualSeed", "Tensor::rand"])

p("C28", "Weight initializers respect their fan and bounds",
  "Uniform, normal, constant and Kaiming initializers fill the given tensor in place with values inside the range that the fan-in, fan-out, gain and non-linearity formulas define, for linear and convolution weights of every shape, and layers initialise their weights and biases with them.",
  ["inputs", "configurations"], "every weight shape within the bound, every engine output", "no test checks the bounds",
  ["Initializer.cpp", "Initializer.h", "Module/Basic.cpp"], [("calculateFan, kaimingUniform, xavierUniform", "Initializer.cpp")], ["Init::*"])

p("C29", "Module trees expose all parameters once and switch mode everywhere",
  "For any tree of modules, the parameter, named-parameter, state and gradient-clearing operations reach every parameter of every descendant exactly once under a unique path name, train and eval switch the mode of the whole tree, and a container runs its children in order; layers apply the operator with their own weights, bias and mode.",
  ["programs", "configurations"], "module trees up to the depth and width bound", "tests inspect one or two trees",
  ["Module/Module.h", "Module/Basic.cpp", "Module/Basic.h", "Module/Norm.cpp"], [("Module::parameters/namedParameters/train/eval", "Module/Module.h"), ("Sequential::forward", "Module/Basic.h")], ["Module::parameters"])

p("C30", "The small vector and array views behave like the standard containers",
  "Under any sequence of operations (construction, push, insert, resize, reserve, clear, copy, move, swap, comparison) across the inline and heap representations, the small vector holds the same elements in the same order as a standard vector would, never accesses memory outside its elements, and array views see exactly the viewed elements.",
  ["histories", "inputs"], "every operation sequence up to the length bound with symbolic arguments and values", "tests run fixed sequences",
  ["Utils/VectorUtils.h"], [("SmallVector, ArrayView", "Utils/VectorUtils.h")], ["SmallVector"])

p("C31", "The file store is a consistent key-value store",
  "Set, get, add, wait, delete and list operations on the file-backed store behave like operations on one shared map: a get returns the bytes of the last set of that key, add returns the running sum, and entries written by one store object are seen by another that opened the same directory, for every value bytes and every key that is a file name. Operations of several processes at once take effect one after the other: no add is lost, and a get never returns part of a value or a key that was never set; waiting calls return when the keys exist or the timeout expires.",
  ["histories", "inputs"], "operation sequences up to the length bound over two store objects, every key and value of bounded length",
  "the distributed sources are not compiled in the tested configuration",
  ["Distributed/FileStore.cpp", "Distributed/FileStore.h", "Distributed/Store.h"], [("FileStore", "Distributed/FileStore.cpp")], ["Store::set/get/add"])

p("C32", "Gradient bucketing averages every parameter's gradient across ranks",
  "With distributed data parallel training, each parameter's gradient after backward is the average over all ranks, every parameter belongs to exactly one bucket whatever the bucket size, each bucket is reduced once per backward after all of its gradients are ready, in an order that all ranks share.",
  ["inputs", "configurations", "schedules"], "parameter lists and bucket sizes within the bound, every gradient value, every order of gradient arrival",
  "not compiled or run in the tested configuration", ["Distributed/Reducer.cpp", "Distributed/Reducer.h", "Distributed/DistributedModule.cpp"], [("Reducer::autogradHook", "Distributed/Reducer.cpp")], ["DistributedDataParallel::forward"])

p("C33", "The network key-value store keeps its protocol under any interleaving",
  "Operations of any number of TCPStore clients (set, get, add, check, wait, deleteKey, getNumKeys) take effect in a single order that respects real time; a get or wait is answered as soon as its keys exist and fails at the timeout if they never do, after which its client goes on working, and waiting for workers follows the same rule; interrupted or short transfers change nothing; malformed messages, broken connections, many clients, a failed start and the end of the server never harm other clients, misroute an answer, block a thread for ever or touch memory that is gone.",
  ["schedules", "fault_sequences"], "every interleaving of client requests, server threads and timers, every message content and point of disconnection", "compiled only with a CUDA configuration; unit tests cannot choose schedules",
  ["Distributed/TCPStore.cpp", "Distributed/TCPStore.h"], [("server loop", "Distributed/TCPStore.cpp")], ["TCPStore"])

p("C34", "Accelerator and CPU back ends agree",
  "Every operation gives the same result, up to rounding, on an accelerator device as on the CPU, gradients and training steps included, and moving or copying tensors between host and devices, pinned memory included, keeps their values; reused device memory never lets one tensor disturb another.",
  ["inputs", "configurations"], "every operation and input", "the accelerator sources are not compiled in the tested configuration",
  ["Operation/OpElemWiseCuda.cu", "Utils/CUDAUtils.cpp"], [("CUDA kernels", "Operation/OpElemWiseCuda.cuh")], ["Tensor::to(Device)"])

p("C35", "Collective operations deliver every rank's contribution",
  "Broadcast, all-reduce, reduce, all-gather, reduce-scatter, send and receive deliver to every rank the result of their definition over all ranks' inputs, and completed work is observable through the returned handle.",
  ["schedules", "inputs"], "every group size and input", "needs NCCL and GPUs, which are not present",
  ["Distributed/BackendNCCL.cpp", "Distributed/DistributedProcessGroup.cpp", "Distributed/ProcessGroup.cpp"], [("BackendNCCL", "Distributed/BackendNCCL.cpp")], ["DistributedProcessGroup::allReduce"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")

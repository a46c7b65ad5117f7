import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=hook)))

p("C01","Multi-index access is exact row-major addressing, bad indices are errors",
"For every shape, reading or writing an element by its multi-index touches exactly the element at that index's row-major position and nothing else, so distinct in-range indices address distinct elements and together cover the whole tensor; building a tensor from a flat list places the values in that same order, padding with zeros and ignoring any excess. An index with the wrong number of coordinates, or with a coordinate out of range, is answered with an error, changes nothing and never crashes the program.",
["inputs","histories"],"all shapes up to the bound, all in-range and just-out-of-range indices of every arity, all write/read sequences over them",
"The tests look at three indices in three shapes; the bijection and the rejection must hold for every shape and every index.",
["tools/tools.go","tensor/tensor_mat.go","tensor/constructor.go"],
[("stride table and index validation","tools/tools.go GetIndexMul/GetIndex/ReverseIndex"),("element access","tensor/tensor_mat.go GetOperand/Get/Set/LoadData/GetData"),("constructors","tensor/constructor.go")],
[dict(name="strides",meaning="row-major multipliers of the shape",where="tensor/tensor_mat.go MulIndex")],["Get, Set, GetData, LoadData, GetShape, GetSize"])

p("C02","Element-wise and scalar operations compute the definition, eager and graph",
"For every element type, every pair of equally shaped tensors and all values, addition, subtraction, multiplication, division, absolute value, negation, function application and the four tensor-with-scalar operations give a tensor of the same shape whose every element is that operation applied to the corresponding operand elements in that element type's own arithmetic. The eager method and the executed graph give the same result, operands are left unchanged, and fill and copy operations set every element of their target to the given value or to the corresponding source element.",
["inputs","configurations"],"6 element types x all shapes up to the bound x all ordered pairs of a boundary-value alphabet x eager/graph form",
"The tests use random float32 values in one shape; boundary values, other element types and odd shapes are never sampled.",
["tensor/oper2.go","tensor/oper_scalar.go","tensor/abs.go","tensor/neg.go","tensor/activate.go","tensor/fill.go","tensor/copy.go","operation/*.go"],
[("graph nodes","operation/add.go, sub.go, mul.go, div.go, abs.go, neg.go, func.go, set.go"),("graph builders","tensor/*.go BuildGraph"),("eager methods","tensor/*.go methods of TensorMat")],
None,["GetData/GetShape of the result and of the operands"])

p("C03","Reductions and normalisation cover exactly their elements",
"For every non-empty tensor, sum, average, maximum and minimum over the whole tensor give one element computed from all elements and only them; their per-dimension forms keep the dimensions up to and including the given one and reduce, for each kept index, exactly the elements below it. Soft-max gives each element's distance from the minimum divided by the total of those distances, hence non-negative shares summing to one. Eager and graph forms agree.",
["inputs","configurations"],"all shapes and dimensions up to the bound x extremum positions x element types x eager/graph form",
"Tests use one shape per operation and random values; extremum in the first/last position, ties, length-1 dimensions and other types are not reached.",
["tensor/tensor_math.go","tensor/dim_math.go","tensor/softmax.go","operation/sum.go","operation/avg.go","operation/max_min.go","tools/math.go"],
[("whole-tensor reductions","tensor/tensor_math.go"),("per-dimension reductions","tensor/dim_math.go"),("soft-max","tensor/softmax.go")],None,["GetData/GetShape of the result"])

p("C04","Rearranging operations put every element where it belongs",
"For every tensor and valid arguments, reshape and flatten keep the row-major order of the data (growing pads with zeros, shrinking drops the tail), transpose reverses the order of the indices, concatenation along a dimension yields the first operand followed by the second along it, and taking a range of a dimension yields exactly that range (the extending form filling with zero, or the given value, past the end). Every result element is one designated source element and the result has the implied shape, in eager and graph form alike, also when the operand is itself a not-yet-computed expression.",
["inputs","configurations"],"all shapes up to the bound x all dims, ranges, target shapes x eager/graph x leaf/derived operand",
"Tests use one big shape and one argument per operation; edge ranges, growth and shrinkage, rank changes and derived operands are not reached.",
["tensor/reshape.go","tensor/transpose.go","tensor/concat.go","tensor/sub_tensor.go"],
[("index remapping","tools/tools.go ReverseIndex/GetInvertedIndex"),("builders and eager methods","tensor/reshape.go, transpose.go, concat.go, sub_tensor.go")],None,["GetData/GetShape of the result"])

p("C05","Dot product contracts exactly the chosen dimensions",
"For every two tensors and every pair of their dimensions of equal length, the dot product has the first operand's remaining dimensions followed by the second's, and each element is the sum over the contracted index of the products of the corresponding elements; without explicit dimensions it contracts the last dimension of the first with the second-to-last (or only) dimension of the second, and two vectors give one number. Eager and graph forms agree.",
["inputs","configurations"],"all shape pairs up to the bound x all dimension pairs x eager/graph form",
"Five fixed examples exist, none of which names dimensions explicitly.",
["tensor/dot_product.go"],[("contraction index assembly","tensor/dot_product.go buildLastDim/dotLastDim"),("vector case","tensor/dot_product.go buildVector/DotVector")],None,["GetData/GetShape of the result"])

p("C06","Executing a graph evaluates the expression it was built from",
"For every expression composed from the tensor operations, including expressions in which intermediate results are shared, building a graph from the result and executing it gives the result, and every intermediate tensor it depends on, the value of evaluating the expression step by step with the eager operations. Unused expressions are not needed and leaves are not modified.",
["programs","inputs"],"all expression DAGs up to the node bound over the whole operation alphabet, with sharing",
"One three-node expression is built by the tests and its result is only logged.",
["graph/graph.go","context/context.go","tensor/*.go"],
[("once-only build flag and dependency order","tensor/*.go BuildGraph, context/context.go Push/GetOps"),("execution","graph/graph.go Exec")],
[dict(name="built flag",meaning="node already emitted into a graph",where="tensor/tensor_mat.go builded")],["GetData of root and intermediates after Exec"])

p("C07","Re-executing graphs always reflects the current leaf values",
"For every history of leaf writes and executions, executing a graph makes its result depend only on the leaf values at that moment, never on earlier executions, and executing twice equals executing once. Several graphs built one after another over shared sub-expressions, executed in build order, act as one; copying and appending graphs preserves order and leaves the source graph untouched.",
["histories","programs"],"all write/execute histories up to the depth bound x all small expressions x all ways of splitting one expression into graphs built in sequence",
"No test executes a graph twice or builds two graphs.",
["graph/graph.go","context/context.go","tensor/*.go","operation/*.go"],
[("operations recompute from operands","operation/*.go Cal"),("graph concatenation and copying","graph/graph.go AddFromGraph/NewFromGraph/PushOperations")],
[dict(name="operation list",meaning="ordered operations of a graph",where="graph/graph.go Graph.Operations")],["GetData after each Exec"])

p("C08","Eager results and constructed tensors own their storage",
"For every history of eager operations and element writes, a write to one tensor is visible in no other tensor: results of eager operations, copies and predictions never share elements or shape with their operands, and operands are never modified. Slices handed to constructors or obtained from a tensor's shape and data accessors can be changed by the caller without affecting the tensor, and do not change when the tensor does.",
["histories"],"all sequences of eager operations and writes up to the depth bound over a small heap of tensors, and all caller-side slice mutations",
"Tests never write to a tensor after using it.",
["tensor/*.go","model/model.go"],
[("fresh element allocation in every eager method","tensor/*.go"),("copies on accessors","tensor/tensor_mat.go GetShape/GetData/Copy, tensor/constructor.go initMat")],None,["GetData of every live tensor after each step"])

p("C09","Incompatible operands and arguments are rejected with an error",
"For every operation and every combination of shapes, dimensions, ranges and data lengths that does not satisfy that operation's shape rule, the eager call or the building of the graph or model returns an error; it never crashes, never returns a result and leaves the operands unchanged. Conversely every combination that satisfies the rule is accepted.",
["inputs","configurations"],"all shape pairs up to the bound x all dims and ranges including out-of-range ones x every operation, layer and loader",
"No test feeds an invalid combination.",
["tensor/*.go","tools/tools.go","layer/*.go","model/model.go"],
[("shape comparison","tools/tools.go Equals/GetEqShapeErr"),("argument checks","tensor/concat.go, sub_tensor.go, dim_math.go, dot_product.go, copy.go, tensor_mat.go; layer/conv2d.go, deconv2d.go, max_pool_2d.go, up_sampling_2d.go; model/model.go Train")],None,["returned error"])

p("C10","Tensor persistence round-trips and reports every stream fault",
"For every element type, shape and value, saving a tensor and loading the stream into a tensor of the same shape restores every element bit for bit, and the self-describing form also restores the shape into any tensor; tensors written one after another are read back in order, each load consuming exactly what its save wrote, however the reader fragments the data. A write that fails at any byte and a stream that ends at any byte before the end are reported as errors.",
["inputs","crash_points","fault_sequences"],"element types x shapes x values x every writer failure point, every truncation point, every fragmentation of the reader",
"There is no test of saving or loading at all.",
["tensor/tensor_mat.go"],[("binary encoding","tensor/tensor_mat.go Save/SaveFull/Load/LoadFull")],None,["bytes written, loaded data and shape, returned error"])

p("C11","Model persistence restores every parameter, whatever the history",
"For every architecture, including layers shared by several branches and models nested in models, saving (after preparing for saving) and loading (after preparing for loading) into a model of the same architecture transfers every weight and bias, each exactly once, so both models predict identically; this holds after any earlier history of training, saving and loading. A writer failing at any point and a stream truncated at any point are reported as errors.",
["histories","crash_points","fault_sequences","configurations"],"an architecture alphabet x all save/load/train histories up to the depth bound x every fault point of the stream",
"There is no test of model saving or loading.",
["layer/base.go","layer/concat.go","model/model_layer.go","tensor/tensor_mat.go"],
[("once-only save/load flags","layer/base.go Save/Load/ResetSave/ResetLoad, layer/concat.go"),("delegation","model/model_layer.go")],
[dict(name="saved/loaded flags",meaning="layer already written/read in this pass",where="layer/base.go")],["bytes written; parameters and predictions after loading"])

p("C12","Prediction is a pure function of parameters and input",
"For every model and every history of predictions, rejected predictions, resets and summaries, predicting an input returns the value determined by the current parameters and that input alone and changes no parameter; the returned tensor is the caller's own and is not altered by later calls, and the caller's input is not modified or retained.",
["histories"],"architecture alphabet x all call histories up to the depth bound",
"Tests predict each input once after training and only compare with a loose threshold.",
["model/model.go","layer/*.go"],[("load input, execute, copy output","model/model.go Predict"),("accumulators re-initialised in the graph","layer/conv2d.go, deconv2d.go")],None,["returned tensors, parameters"])

p("C13","Every layer's output is its defined function of its input",
"For every layer type, configuration, input shape and input, the layer's output equals its definition: dense and 2-D convolution as activation of bias plus weighted sum over (strided) windows, transposed convolution as activation of bias plus the scattered weighted contributions, max-pooling as the maximum of each non-overlapping block (partial at the border), up-sampling as block repetition, and flatten, sub-range, concatenation, peak-normalisation and soft-max as their tensor counterparts. Output shapes are the documented ones, separately for width and height.",
["inputs","configurations"],"all layer types x all kernel/stride/block/shape configurations up to the bound x generic inputs",
"Tests only train a few networks to a loose threshold with square kernels and strides.",
["layer/*.go"],[("feed-forward construction","layer/*.go BuildFeedforward")],None,["Predict on single-layer models with chosen parameters"])

p("C14","A training step is exactly one gradient-descent step",
"For every architecture, parameters, sample and rate, one training step reports the summed absolute difference between target and output before the step, and then changes every trainable parameter by the rate times the negative gradient of the error (target minus output being the error at the last layer's pre-activation, carried back by the chain rule through activations, pooling with unique maxima, up-sampling, reshaping and branching, with normalisation scales held constant and soft-max passed straight through) plus momentum times the previous change. Successive steps depend only on parameters, previous change and sample, not on what was predicted or trained before.",
["inputs","histories","configurations"],"architecture alphabet x sample alphabet x rate/momentum alphabet x all step sequences up to the depth bound, against an independent reference network",
"Tests only check that a network's loss ends below a threshold, which wrong gradients easily satisfy.",
["layer/*.go","model/model.go","activation/*.go"],
[("back-propagation construction","layer/*.go BuildBackpropagation/BuildDer"),("step","model/model.go ExecFit/TrainOne, layer/base.go Fit/ResetFit")],
[dict(name="error accumulators",meaning="per-layer error, zeroed each step",where="layer/base.go Dif"),dict(name="previous changes",meaning="momentum memory",where="layer/base.go MWeights/MBias")],["parameters before/after, returned loss"])

p("C15","Frozen parameters never change, unfrozen ones always train",
"For every history of freezing, unfreezing and training, a step leaves the parameters of every frozen layer bit for bit unchanged and updates those of all other layers of the trained model as if nothing were frozen; freezing a model covers all its layers, including its first layer and branches. Parameters of models that are not being trained do not change.",
["histories","configurations"],"architecture alphabet x all freeze/unfreeze/train histories up to the depth bound",
"No test freezes anything.",
["layer/base.go","layer/concat.go","model/model_layer.go"],[("trainable flag in the commit step","layer/base.go Fit/SetTrainable"),("model-wide setting","model/model_layer.go SetTrainable")],
[dict(name="trainable flag",meaning="layer takes part in training",where="layer/base.go Trainable")],["parameters before/after each step"])

p("C16","Composing models and layers composes the functions they compute",
"For every way of putting the same layers together - pushing layers, connecting them explicitly, nesting a model as a layer, or chaining models - prediction gives the composition of the parts' functions, with the parts' own parameters (models are nested before they are compiled on their own; chaining a model that was compiled on its own is either refused or composes all the same). The parts of a chained model remain usable on their own and agree with the chain.",
["programs","configurations","histories"],"all groupings of small layer lists into nested or chained models x inputs x call orders",
"One test checks that a model satisfies the layer interface; nothing composes models.",
["model/model.go","model/model_layer.go","layer/input.go","layer/base.go"],[("connection and delegation","model/model_layer.go, model/model.go FromModels/FromInOut/Push, layer/input.go")],None,["Predict of the composite and of the parts"])

p("C17","Training a data set is a sequence of single training steps on its pairs",
"For every data set, number of epochs and batch size, training performs exactly epochs times batch steps (batch zero meaning the data-set size), each equal to one single-sample training step on an input together with its own target chosen from the data set, every sample being eligible at every step. Mismatched lists are rejected and nothing is trained.",
["histories","inputs"],"every sequence of random choices up to the bound x epochs x batch sizes x data-set sizes",
"Tests cannot see which samples were used; they only check a final threshold.",
["model/model.go"],[("training loop","model/model.go Train/ExecFit")],None,["parameters after Train compared with all choice sequences of single steps"],"math/rand answered by the harness through a build overlay of the standard library, no change in /repo")

p("C18","Activation functions and their derivatives match their definitions",
"For every representable input in range, each activation function returns its mathematical value and its derivative method returns the true derivative of that function, in both floating-point types and for every slope parameter, to within rounding of the element type.",
["inputs"],"every finite half-precision value (thorough: every float32) x activation x parameter x element type",
"Activations are only exercised indirectly by training tests that use Tanh, Sin and a few others.",
["activation/*.go"],[("formulas","activation/*.go Activate/Derive")],None,["Activate, Derive"])

p("C19","Half-precision scalars are IEEE binary16 and arithmetic rounds correctly",
"Every 16-bit pattern converts to the single-precision number it denotes and every single-precision number converts to the nearest half-precision number with ties to even, overflow to infinity and NaN preserved. Arithmetic on scalars of any of the three precisions is computed in the receiver's precision and correctly rounded, in-place forms equal the value-returning forms, comparison orders as the real numbers do, classification predicates agree with the bit pattern, and copies are independent.",
["inputs"],"all 65536 patterns, all 2^32 single-precision values, all structured (thorough: all) operand pairs x operations",
"The scalar package has no tests.",
["scalar/f16.go","scalar/f32.go","scalar/f64.go","scalar/scalar.go"],[("bit conversion","scalar/f16.go f16bitsToF32bits/f32bitsToF16bits"),("arithmetic","scalar/*.go")],None,["G32/G64/Value, results of arithmetic"])

p("C20","Images survive load, scale and save",
"For every image size and 8-bit colour, an opaque image saved as PNG and loaded again gives the same pixel in the same place and channel, with channel values proportional to intensity on a zero-to-one scale; saved as JPEG, the file holds the encoding of that image at the requested quality. Nearest scaling takes, for every target size, the source pixel at the proportionally scaled position, smooth scaling interpolates bilinearly between the neighbouring source pixels (repeating the border) for every number of channels, and loading with scaling equals loading followed by scaling. A missing, damaged or truncated file, a file that cannot be written and a tensor that is not an image are reported as errors.",
["inputs","configurations"],"all source and target sizes up to the bound x all 256 levels x channels x element types x file formats",
"The image package has no tests.",
["img/image.go","img/save.go","img/simple_scale.go","img/smooth_scale.go"],[("pixel conversion","img/image.go, img/save.go ToImg"),("scaling","img/simple_scale.go, img/smooth_scale.go")],None,["tensors returned; pixels of the written file"])

p("C21","Model operations work in any order and repetition",
"For every order and repetition of compiling, preparing back-propagation, predicting, training, resetting, summarising, saving and loading, starting from an uncompiled model, each call succeeds and behaves as if the model had been compiled exactly once beforehand, also after calls that were rejected. A model that cannot be compiled reports the error every time and never crashes.",
["histories"],"all call sequences up to the depth bound over the model API x architectures, against a reference network",
"Tests follow the single order compile, train, predict.",
["model/model.go","layer/base.go"],[("lazy compilation","model/model.go Compile/CompileBackPropagation/Predict/TrainOne/Train/ResetIS"),("once-only build flags","layer/base.go CheckB/CheckFF/CheckBP")],
[dict(name="build flags",meaning="layer built for feed-forward/back-propagation",where="layer/base.go")],["returned values, errors, parameters"])

p("C22","Independent instances never interfere, whatever the interleaving",
"For every interleaving of operations on distinct models, graphs and tensors - building, executing, predicting, training, saving and loading - each instance behaves exactly as if it were used alone, so distinct instances may be used from different goroutines without synchronisation.",
["schedules"],"all interleavings of two threads up to the preemption bound, scheduling points inside builds, executions, activations and stream transfers",
"All tests are single-threaded and use one instance at a time.",
["graph/graph.go","tensor/*.go","layer/*.go","model/model.go","context/context.go","tools/*.go"],[("no package-level mutable state","whole repository")],None,["final values of every instance under each schedule"])

p("C23","Summaries describe every layer once, in order",
"The textual form of a tensor shows its shape and its elements in row-major order. The summary of a compiled model lists every layer exactly once, after the layers it depends on, with its kind, its position (its distance from the input), the positions of the layers feeding it and its output shape, and asking for it again gives the same text.",
["configurations","histories"],"architecture alphabet including shared layers x call histories; all small shapes x element types",
"No test checks a summary.",
["layer/base.go","layer/concat.go","model/model.go","tensor/tensor_mat.go","tools/tools.go"],[("printed flags and index assignment","layer/base.go PushToString/ResetPrinted/PreBuild, layer/concat.go")],None,["String()"])

p("C24","Random initialisers stay in range and draw every element separately",
"For every shape, element type, bounds and every answer of the random source, a uniformly initialised tensor or scalar has every element between the given bounds, and a normally initialised one takes each element from its own draw.",
["inputs","configurations"],"all answer sequences of the random source over a boundary alphabet x shapes x bounds x types",
"Tests use the initialisers but never look at the values' range.",
["tensor/constructor.go","number/constructors.go"],[("initialisers","tensor/constructor.go NewRand/NewNormRand, number/constructors.go")],None,["GetData"],"math/rand answered by the harness through a build overlay of the standard library, no change in /repo")

p("C25","Index, shape, distance and progress helpers match their definitions",
"For every shape, the multipliers, the size, the position of an index and the index of a position describe one row-major enumeration of the shape's indices, and any index outside the shape is an error; two shapes are reported equal exactly when they are, and otherwise the first differing dimension (or the different rank) is reported; the distance of two equally long lists is their Euclidean distance and different lengths are an error; a progress bar of any size has exactly that many characters, filled in proportion to the progress from none at 0 to all at 1.",
["inputs"],"all small shapes x all positions and indices; all pairs of shapes; all pairs of short lists; all bar sizes and progresses on a grid",
"Tests convert one index of three shapes back and forth.",
["tools/tools.go","tools/bar.go"],[("index arithmetic, comparison, distance, bar","tools/tools.go, tools/bar.go")],None,["return values"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P: assert len(x['title'])<=80,(x['id'],len(x['title']))

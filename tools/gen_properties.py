#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the statements live here so that they can be edited as text)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = list(observe)
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})
T="src/tensor.rs"; H="src/tensor/helper.rs"; C="src/tensor/operations/convolution.rs"
L="src/layer.rs"; FC="src/layer/fully_connected.rs"; CV="src/layer/convolutional.rs"; MP="src/layer/max_pool.rs"; SM="src/layer/softmax.rs"; N="src/network.rs"
GH="gradients kept inside layers / the network are read through the accessors guarded by cfg(vp_hooks)"

p("C01","Every tensor coordinate names its own storage cell",
  "In a tensor of any shape the in-range coordinates map one-to-one onto the stored elements (first dimension fastest): writing through a coordinate changes exactly that element, and reading it back gives the written value bit for bit. An out-of-range write changes nothing and an out-of-range read yields 0. A bulk fill sets every element as asked (constant, vector in storage order, uniform within the given bounds, gaussian with the given mean and spread, exactly the mean when the spread is zero, random elements drawn anew one by one), and a vector of the wrong length is refused with the tensor unchanged.",
  ["inputs","histories"],"every shape with dimensions of at least 1, every coordinate (in and out of range), every 32-bit float value, every sequence of writes, reads and fills",
  "Tests write and read one coordinate of one 3x4x5 tensor; a wrong stride or bound for other shapes, a clobbered neighbour or a fill that misses the tail passes them.",
  [T,H],[("TensorStride::new_from_shape / Mul",H),("TensorShape::fits_index",H),("Tensor::set_item/get_item/fill_with_*",T)],
  [("Tensor.data/strides/shape","the flat element store and its addressing",T)],["Tensor::get_item","Tensor::set_item","Tensor::get_data_index","Tensor::fill_with_vec"])
p("C02","Elementwise arithmetic is exact per element and respects shapes",
  "Addition, in-place addition, scaling, elementwise product (each in its two forms), ReLU with mask and index-list accumulation produce for every element exactly the value of the operation on the corresponding operand elements, and touch no other tensor; index-list accumulation adds source element n into the listed target, once per entry, duplicates included. When operand shapes differ (or the index list is too long or points outside the target) the destination is left exactly as it was. The norm is the square root of the sum of the squares.",
  ["inputs"],"all shapes, equal or not, all values representable without rounding, infinities and NaN by the rules of IEEE arithmetic, all index lists including duplicates, too long and out-of-range ones",
  "Tests use one 2x3 example per operation with matching shapes; mismatching shapes, long tensors, duplicates combined with errors, and values near zero are not reached.",
  [T],[("Tensor::add/add_to_self/scale/scale_self/multiply_elementwise*/relu_self_and_store_mask/add_from_index_list/get_norm",T)],(),["the destination tensor after each call"])
p("C03","Matrix products and transpose follow their definition slice by slice",
  "For compatible shapes the matrix product, its transposed-first and transposed-second variants and the transpose equal their mathematical definition independently for every slice of the third dimension; a transposed variant equals the plain product applied to the explicitly transposed operand. Previous content of the destination never matters. For incompatible shapes the destination is unchanged and the operations that return a result report an error.",
  ["inputs"],"all triples of shapes (compatible and incompatible, including non-square and several slices), all exactly representable values, infinities and NaN by the rules of IEEE arithmetic",
  "Tests multiply one 2x3 by 3x3 all-ones matrix and two vectors with a single slice; index confusions that cancel on square, constant or one-slice data pass.",
  [T],[("Tensor::matrix_multiply*, transpose_ij, check_matrix_multiply_dimensions",T)],(),["the destination tensor and result of each call"])
p("C04","Training and inference forward passes agree",
  "For every layer kind, parameters and input, the forward pass in training mode produces the same output as the forward pass in inference mode, and the fused kernels (multiply-add-ReLU, convolution-bias-ReLU) equal the composition of the separate steps (product, bias, ReLU). The previous content of the output tensor has no influence.",
  ["inputs","configurations"],"every layer kind, geometry, parameters and input, both run modes, stale output contents",
  "Each mode is tested on one or two hand-made examples; nothing compares the two code paths on other geometries, slices or signs.",
  [T,C,FC,CV,MP,SM],[("Layer::forward match on run_state",FC+", "+CV+", "+MP),("matrix_multiply_add_relu",T),("convolution_bias_relu",C)],(),["Layer::forward output in both modes"])
p("C05","Convolution computes the strided correlation for one output channel",
  "For every geometry in which the kernel tiles the image exactly at the given stride, convolution writes to each position of the selected output channel the sum over the whole kernel volume of kernel times image value plus the bias (clamped at zero in the ReLU form), and leaves every other channel untouched. Any geometry that does not fit (kernel larger than the image, stride zero or not dividing, wrong depth, wrong result size, channel out of range, bias not scalar) yields an error with the result unchanged, and never a panic.",
  ["inputs"],"all image/kernel/result shapes with dimensions of at least 1, strides (0 included), channels, and exactly representable values; without the ReLU also infinities and NaN by the rules of IEEE arithmetic",
  "One 4x4x1 image with a 3x3 kernel at stride 1 is tested; non-square kernels, depth above 1, strides above 1 and ill-fitting geometries are not.",
  [C,T],[("check_convolution_dimensions",C),("convolution_bias / convolution_bias_relu",C)],(),["result tensor and result value of the convolution calls"])
p("C06","Convolution input gradient is the exact adjoint of convolution",
  "For every valid geometry the gradient propagated to the image equals, at each image position, the sum over all output channels, output positions and kernel positions that used it of incoming gradient times kernel value: no contribution is missing, repeated or taken from outside the gradient. This holds for every stride, for kernels smaller or larger than the output, and at all borders; ill-fitting geometries or a wrong number of kernels yield an error with the result unchanged.",
  ["inputs"],"all valid and invalid geometries (image, kernel, stride, number of kernels) and exactly representable values, infinities and NaN by the rules of IEEE arithmetic",
  "The single test has a 3x3 image, 2x2 kernels and stride 1, where kernel size equals output size; the index ranges for any other geometry are never exercised.",
  [C],[("convolution_backprop_outgoing_gradient index ranges",C)],(),["the outgoing gradient tensor"])
p("C07","Convolution kernel gradient is the exact adjoint for its own channel",
  "For every valid geometry the gradient of the kernel of one output channel equals, at each kernel position, the sum over the output positions of that channel only of incoming gradient times the image value it multiplied. Gradients of other output channels never leak in; ill-fitting geometries yield an error with the result unchanged.",
  ["inputs"],"all valid and invalid geometries, all channels of multi-channel gradients, exactly representable values, infinities and NaN by the rules of IEEE arithmetic",
  "The single test has one output channel, so channel mix-ups cannot be seen.",
  [C],[("convolution_backprop_kernel",C)],(),["the kernel gradient tensor"])
p("C08","Max pooling returns each window's maximum and where it came from",
  "For every geometry in which the window tiles the image at the given stride, each pooled element is the maximum of exactly its own window in its own channel (whatever the sign or size of the values), and the tracked origin is a position inside that window holding that maximum. The tracked and untracked forms agree. Ill-fitting geometries (window larger than the image, stride zero or not dividing, wrong result size or tracker length) change nothing, are reported where a result is returned, and never panic.",
  ["inputs"],"all image/window/result shapes, strides (0 included), and all non-NaN values including negative ones and infinities, with and without ties",
  "Tests use positive images on two square geometries; all-negative windows, several channels with origins, overlapping strides and misfits are not reached.",
  [T],[("max_pool / max_pool_track_origin / check_max_pooling_dimensions",T)],(),["pooled tensor and origin list"])
p("C09","Pooling gradient is routed to the maxima and conserved",
  "After a training forward pass the pooling layer's gradient is, at each image position, the sum of the incoming gradients of exactly those windows whose maximum was taken from that position in the last forward pass, and zero elsewhere; overlapping windows add up and nothing is lost. Whatever the outgoing tensor held before has no influence, and an earlier image or gradient leaves no trace.",
  ["inputs","histories"],"all pooling geometries including overlapping windows, any sequence of forward and backward passes with different images and gradients",
  "One forward/backward pair on one 3x3 image with increasing values is tested.",
  [MP,T],[("MaxPoolLayer::backward",MP),("add_from_index_list",T)],[("max_pool_origin","origins of the last training forward pass",MP)],["outgoing gradient of Layer::backward"])
p("C10","Softmax is a probability distribution for every finite input",
  "For every finite input of any shape, however large or small its entries, softmax yields finite values in [0,1] that sum to 1 over the whole tensor, with ratios exp(a-b) between elements; in particular larger inputs never get smaller probabilities and adding a constant to all inputs does not change the result. On mismatching shapes the output is unchanged.",
  ["inputs"],"all finite inputs, including magnitudes at which a plain exponential overflows or underflows, all shapes",
  "Tests use the single input 1,2,3; anything beyond about 88 in magnitude is untested.",
  [T,SM],[("Tensor::softmax",T)],(),["softmax output"])
p("C11","Softmax gradient equals the Jacobian product for every shape",
  "In training mode, for every shape the softmax layer accepts, the propagated gradient is at each element s*(g - sum of s*g over all elements), with s the forward output and g the incoming gradient, so it sums to zero. Previous content of the outgoing tensor and earlier passes have no influence.",
  ["inputs","histories"],"all shapes (vectors, matrices, volumes), incoming gradients and repeated forward/backward sequences",
  "The test computes the expected gradient and never compares it; only 1-D shapes are used.",
  [SM],[("SoftmaxLayer::backward",SM)],(),["outgoing gradient of Layer::backward"])
p("C12","Fully connected layer: output and gradients match the layer function",
  "For every size, weights, bias and input the layer computes relu(W x + b), and a backward pass yields the exact gradient of <g, output> with respect to input, weights and bias, where an output unit contributes only if its pre-activation in the last training forward pass was positive. The result does not depend on earlier passes, on stale contents of the output tensors, or on how often backward ran since that forward pass.",
  ["inputs","histories"],"all layer sizes, parameters, inputs, incoming gradients, and sequences of forward and backward passes",
  "One 3x3 example, one forward and one backward pass; non-square layers, repeated passes and several slices are not reached.",
  [FC,T],[("FullyConnectedLayer::forward/backward, relu_mask",FC)],[("weights_gradients, bias_gradients, relu_mask","training state",FC)],["Layer::forward/backward results, layer gradients"],GH)
p("C13","Convolutional layer: output and gradients match the layer function",
  "For every geometry, kernels, biases and input the layer computes relu(conv(x, kernel c) + bias c) per channel, and a backward pass yields the exact gradient of <g, output> with respect to the input, every kernel and every bias, where an output element contributes only if its pre-activation in the last training forward pass was positive. The result does not depend on earlier passes, stale output contents, or how often backward ran since that forward pass.",
  ["inputs","histories"],"all geometries, channel counts, parameters, inputs, incoming gradients, and sequences of forward and backward passes",
  "The layer test only asserts that the outgoing gradient is not all zero.",
  [CV,C],[("ConvolutionalLayer::forward/backward, relu_mask",CV)],[("kernel_gradients, bias_gradients, relu_mask","training state",CV)],["Layer::forward/backward results, layer gradients"],GH)
p("C14","Parameter gradients accumulate until cleared",
  "In training mode the parameter gradients of a layer equal the sum of the contributions of all backward passes since they were last cleared, and are zero right after clearing or after (re)entering training mode; forward passes and failed calls do not change them. Clearing affects nothing else: parameters and later results stay as they were.",
  ["histories"],"all sequences of forward, backward, clear and mode-switch calls on every parameterised layer kind, alone and inside a network",
  "No test runs backward twice or clears gradients.",
  [FC,CV,L],[("Layer::clear_gradients / add_to_self accumulation",FC+", "+CV)],[("weights_gradients, bias_gradients, kernel_gradients","accumulators",FC+", "+CV)],["layer gradients after each call"],GH)
p("C15","A constructed layer really accepts the shapes it advertises",
  "Building a layer from any geometry and parameters either reports an error or gives a layer whose advertised input and output shapes are right for its parameters and for which forward on an input of the advertised shape succeeds and defines every output element, in both modes. Construction fails exactly when the geometry does not fit (kernel or window larger than the image, stride zero or not dividing, depth mismatch, no or unequal kernels, a bias count or shape that does not match), and neither construction nor use panics; re-filling an existing layer obeys the same rule in either mode and a refused re-fill leaves it unchanged.",
  ["inputs","configurations"],"all shapes with dimensions of at least 1, strides including 0, parameter lists of any lengths and shapes, both modes, new and existing layers",
  "Tests construct a handful of fitting layers; no rejected geometry, no re-fill in training mode.",
  [FC,CV,MP,SM,T],[("fill_from_state validations",FC+", "+CV+", "+MP),("does_kernel_stride_fit_image, get_convolution_dim_fit",T)],(),["constructor results, advertised shapes, forward results"])
p("C16","A network is always a chain of matching layers",
  "Adding a layer succeeds exactly when the network is empty or the layer's input shape equals the current output shape; the network then reports the first layer's input shape, the last layer's output shape, its layers in the order added, and one intermediate result per boundary with that boundary's shape (and an error for any further index). A refused layer leaves every observable of the network as it was.",
  ["histories","configurations"],"all sequences of layer additions (accepted and refused) interleaved with any other operation, in both modes",
  "Tests add two matching layers and one mismatching one and look only at the end shapes.",
  [N],[("Network::add_layer",N)],[("layers, intermediate_states, input_shape, output_shape","the chain and its boundary tensors",N)],["Network getters"])
p("C17","Run mode is coherent across the network and governs backpropagation",
  "After any sequence of operations the network reports the mode it was last put in, every layer (also those added or loaded later) is in that same mode, and backpropagation is refused with an error in inference mode and possible in training mode once the network has layers. A layer itself also refuses backward in inference mode, leaving everything unchanged, and no call panics because of the mode.",
  ["histories"],"all sequences of construction, layer addition, loading, switching in both directions, inference and backpropagation",
  "The mode test looks at the layers only, not at the network's reported mode nor at additions or backpropagation after switching back.",
  [N,FC,CV,MP,SM],[("Network::switch_to_training/switch_to_inference/add_layer/backward",N)],[("run_state","mode of network and layers",N)],["Network::get_run_state","Layer::get_run_mode","Network::backward result"])
p("C18","Inference is the composition of the layers in order",
  "After a successful inference the first intermediate result is the input, each following one is the corresponding layer's function of the previous one, and the output is the last; an input of any other shape than the network's, or an empty network, gives an error and leaves all results as they were. This holds in both modes and for any depth.",
  ["inputs","histories"],"all networks of the available layer kinds and of layers written by the user of the library, inputs (right and wrong shape), and preceding operation histories",
  "One two-layer fully connected network with constant weights and one input is tested.",
  [N],[("Network::infer",N)],[("intermediate_states","boundary values",N)],["Network::get_output","Network::get_intermediate_state"])
p("C19","Backpropagation is the chain rule through all layers",
  "A successful backward pass propagates the incoming loss gradient through the layers from last to first, each receiving the input and output of the latest inference and the gradient coming from its successor, so that every boundary gradient and every parameter gradient equals the derivative of <g, network output>. A gradient of the wrong shape, or an empty network, gives an error and changes nothing.",
  ["inputs","histories"],"all trainable networks, layers written by the user of the library among them, inputs, loss gradients (right and wrong shape) and preceding histories",
  "One two-layer fully connected network with all weights equal is tested, where transposition and ordering errors cancel.",
  [N,L],[("Network::backward",N)],[("intermediate_gradients","boundary gradients",N)],["Network::backward result, boundary and layer gradients"],GH)
p("C20","A layer call either does its work or reports an error and changes nothing",
  "A forward call with an input or output tensor of the wrong shape, or a backward call with an incoming or outgoing gradient tensor of the wrong shape, returns an error and leaves the given tensors, the parameters and the accumulated gradients as they were; a call never reports success without having computed its result and never panics. A following correct call behaves as if the failed one had not happened.",
  ["inputs","histories"],"all layer kinds, both modes, every wrong-shape argument, followed by correct calls",
  "No test passes a wrong shape to a layer.",
  [FC,CV,MP,SM],[("shape checks in Layer::forward/backward",FC+", "+CV+", "+MP+", "+SM)],(),["result and tensors of Layer::forward/backward"],GH)
p("C21","Saving and loading reproduces the network",
  "Loading a saved file into an empty network gives the same layers in the same order with the same names, shapes, strides and bit-identical parameters, in the loading network's own run mode, and the same outputs for every input; loading into a network with layers appends them if the shapes chain and is refused otherwise. Saving changes nothing in the network, replaces what the file held, and a file can be loaded any number of times; a save that cannot write its file reports an error.",
  ["inputs","histories","configurations"],"all networks (kinds, names, 32-bit parameter values), modes at save and load time, and sequences of save, load, overwrite and re-save",
  "One in-memory round trip of two constant-weight fully connected layers is tested; files, other kinds, modes and appending are not.",
  [N,L,FC,CV,MP,SM],[("save_to_file/load_from_file, SerializedNetwork",N),("SerializedLayer::add_to_network",L),("get_serialized/load_from_serialized",FC+", "+CV+", "+MP+", "+SM)],[("file content","the saved network","filesystem")],["a loaded network's getters, parameters and outputs"])
p("C22","A damaged network file is refused and leaves the network untouched",
  "Loading a file that is missing, was cut short at any byte (a crash while saving), or holds a layer record with a missing, truncated or inconsistent field, or layers that do not chain, returns an error. It never panics and leaves the loading network exactly as it was, so that it can go on working and load a good file afterwards.",
  ["crash_points","inputs","histories"],"every truncation point of saved files of all layer kinds, every single missing, truncated or inconsistent record field at any layer position, non-chaining layer lists",
  "No test loads a damaged file.",
  [N,L,FC,CV,MP,SM,T],[("Network::load_from_file, populate_network",N),("load_from_serialized_data",FC+", "+CV+", "+MP+", "+SM),("Tensor deserialization",T)],[("file content","possibly torn save","filesystem")],["load result and the network's observables"])
p("C23","A tensor file holds exactly the tensor",
  "Saving a tensor and reading the file back gives a tensor with the same shape and bit-identical elements that behaves the same in every further operation; saving again replaces the old content and leaves the tensor unchanged, and a save that cannot write its file reports an error. A missing or cut-short file, or one whose content does not describe a consistent tensor, gives an error and never a panic or a partial tensor.",
  ["inputs","crash_points","histories"],"all shapes and 32-bit values (NaN payloads, signed zeros, subnormals), every truncation point, inconsistent contents, save/load/overwrite sequences",
  "One 3x4x5 tensor is written and read once; damaged files are not tried.",
  [T],[("Tensor::save_to_file/from_file",T)],[("file content","the serialized tensor","filesystem")],["tensor read back"])
p("C24","A layer record restores exactly its layer and nothing else",
  "Loading a layer's record into any other layer of the same kind (empty or in use, in either mode) gives that layer the recorded name, geometry and bit-identical parameters while keeping its run mode, and it is immediately usable: forward, and in training mode backward, behave like on a freshly built layer. A record of another kind or with a missing, truncated or inconsistent field is refused with an error, without panic, and leaves the layer unchanged.",
  ["inputs","histories","configurations"],"all layer kinds and parameters, receiving layers of any prior geometry in either mode, all kind mismatches and damaged fields",
  "Tests load one record per kind into an empty layer in inference mode and compare a few fields.",
  [L,FC,CV,MP,SM],[("load_from_serialized(_data)",FC+", "+CV+", "+MP+", "+SM)],(),["layer getters, record, forward/backward results"],GH)
p("C25","Parameters and caller tensors are never altered by running the network",
  "Inference, backpropagation, clearing gradients, switching modes, saving, refused additions and failed calls never change any layer's parameters, name, shapes or order, nor any tensor the caller passed in by shared reference; only loading or filling a layer sets parameters.",
  ["histories"],"all operation sequences on layers and networks of all kinds",
  "Tests never look at parameters after running a layer.",
  [N,FC,CV,MP,SM],[("Layer::forward/backward/apply_gradients",L)],[("weights, bias, kernels, biases","learned parameters",FC+", "+CV)],["Layer::get_serialized, the argument tensors"])
p("C26","Results depend only on parameters and input, not on history",
  "For arbitrary real-valued parameters and inputs, repeating an inference on the same network gives bit-identical results in the same mode, whatever happened in between (other inputs, backward passes, mode switches, failed calls, saving, loading elsewhere), and so does any other network with the same layers, such as one loaded from file. Two networks never influence each other.",
  ["histories","inputs"],"all interleavings of operations on several networks with arbitrary float parameters, repeated inputs",
  "No test infers twice or uses two networks at the same time with different inputs.",
  [N,FC,CV,MP,SM],[("Network::infer, layer state kept between calls",N)],[("intermediate_states, relu_mask, max_pool_origin","state kept between calls",N)],["Network::get_output"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")

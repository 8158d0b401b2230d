import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,anchors=dict(files=files,mechanism=mech))
    P.append(d)
A="tf_encrypted/protocol/aby3/aby3.py"; AT="tf_encrypted/protocol/aby3/aby3_tensors.py"
PO="tf_encrypted/protocol/pond/pond.py"; TS="tf_encrypted/protocol/pond/triple_sources.py"
SN="tf_encrypted/protocol/securenn/securenn.py"; OD="tf_encrypted/protocol/securenn/odd_tensor.py"
p("C01","Sharing and revealing a value gives that value back, on consistent shares",
 "In every protocol (ABY3, Pond, SecureNN), a value entered as a private or public constant, variable or input and then revealed decodes to its fixed-point (or integer) encoding exactly, whatever randomness the sharing drew. Every share of a replicated sharing that two servers hold is the same on both, and each share lives on the server it belongs to.",
 ["inputs","configurations"],"every ring element of a small ring and every random tape of the sharing; boundary words of the 64-, 100- and 128-bit rings; every way of defining a value",
 "Tests share a few small floats with fresh randomness each run; they never meet the share values that wrap, nor check the second copy of a replicated share.",
 [A,AT,PO,SN,"tf_encrypted/tensor/native.py","tf_encrypted/tensor/int100.py","tf_encrypted/tensor/int128.py"],
 "_share/_reconstruct/_encode/_decode of each protocol; define_*_variable/constant/input")
p("C02","ABY3 arithmetic on shares equals ring arithmetic",
 "Addition, subtraction, negation, multiplication, squaring, matrix multiplication, powers and sums of ABY3 private and public tensors (and Python numbers) reveal exactly the result the same operation has in the ring, for integer operands, whatever randomness was drawn. The result is again a consistent replicated sharing.",
 ["inputs","configurations"],"all operand pairs and all masks of a small ring; all pairs of boundary words of the 64-bit ring (and 128-bit ring); every private/public operand combination and broadcasting shape",
 "Tests use a few small values, so carries into and out of the top bit, wrap-around and broadcast shapes are not reached.",
 [A,AT],"_add_*/_sub_*/_mul_*/_matmul_*/_negative_*/_reduce_sum_*/_pow_private, _gen_zero_sharing, lift")
p("C03","ABY3 boolean circuits and share conversions compute the right bits",
 "XOR, AND, OR, NOT, shifts, bit gathering, bit reversal, the parallel prefix adders, carry, bit extraction, most significant bit, bit decomposition, arithmetic-to-boolean and boolean-to-arithmetic conversion of ABY3 tensors reveal exactly the bits the plaintext operation gives, for every operand and whatever randomness was drawn.",
 ["inputs","configurations"],"all operand pairs of a small ring with all masks; all pairs of boundary words (single bits, runs of ones, carry chains, sign edges) of the 64- and 128-bit rings; every bit position, shift amount and adder topology",
 "Tests use a handful of values per operation; a wrong mask or stride in one level of an adder or at one bit position shows only for particular carry patterns.",
 [A,"operations/aux/bit_gather.cc","operations/aux/bit_split_and_gather.cc","operations/aux/bit_reverse.cc","tf_encrypted/tensor/boolfactory.py"],
 "_ppa_*, _carry_*, _a2b_private, _b2a_*, _bit_extract_private, _mul_ab_*, _ot")
p("C04","ABY3 comparison, selection, maximum and sorting agree with the plaintext",
 "Comparisons, equality, oblivious selection, ReLU, maximum, compare-and-swap, reduce_max, argmax, max pooling and sorting on ABY3 private tensors reveal what the plaintext operation gives for all values whose differences fit the signed range. For ties, maxima are still right and one-hot arg-maxima still mark exactly one maximal position.",
 ["inputs","configurations"],"all pairs of boundary words; all vectors up to a length over a small alphabet (all permutations, ties included); every axis, output style and method",
 "Tests sort or reduce one or two sample arrays; odd lengths, ties, negative values and other axes are not covered.",
 [A],"_less_than_*, _equal_*, select, maximum, cmp_swap, _reduce_max_*, _reduce_max_with_argmax_private, _sort_private, __maxpool2d_computation")
p("C05","ABY3 fixed-point products and truncations stay within one unit of error",
 "Every truncation method ABY3 offers for values in its allowed range, and every scaled multiplication, matrix product, division by a public number and power built on it, reveals the exact rational result to within the documented rounding of a few units in the last place, whatever randomness was drawn. A large wrap-around error never occurs for in-range values with the exact methods.",
 ["inputs","configurations"],"all values of the allowed range and all masks of a small ring; all boundary words of the 64- and 128-bit rings with boundary masks",
 "The truncation error depends on the masks; tests draw one mask per run and tolerate 0.01, so an error that needs a particular carry or mask is not seen.",
 [A],"_truncate_heuristic_private, _truncate_msb0_secureq8_private, _truncate_msb0_cheetah_private, _truncate_local_*, _mul_trunc2_private_private, div")
p("C06","ABY3 shaping, slicing, convolution and pooling match plain TensorFlow",
 "Reshape, transpose, concat, stack, split, slicing, gather, scatter, tile, pad, reverse, expand, squeeze, im2col, patch extraction and its inverse, convolution and average pooling of ABY3 tensors reveal what the corresponding TensorFlow operation gives on the plaintext, for private and public operands.",
 ["inputs","configurations"],"every combination of small shape, axis, stride, kernel, padding and private/public operand within stated bounds, on tensors whose entries are all distinct",
 "Tests try one shape per operation, mostly square with unit strides, so swapped axes or off-by-one paddings go unnoticed.",
 [A,"tf_encrypted/tensor/shared.py","tf_encrypted/tensor/native.py"],"_concat_*, _split_*, _strided_slice_*, _gather_*, _scatter_nd_*, _im2col_*, _im2patches_private, _patches2im_private, _conv2d_*, __avgpool2d_computation")
p("C07","ABY3 non-linear functions stay within their approximation error",
 "exp, exp2, reciprocal, inverse square root, log, sigmoid, softmax and (piecewise) polynomials on ABY3 private tensors reveal values within a fixed error of the real function over the whole documented input range (the range where the result fits the fixed-point format; log: 0.1 to 1)."[:-1]+"",
 ["inputs"],"a complete grid over each function's input range, including range ends, powers of two and both signs",
 "Tests evaluate a few points; a wrong coefficient or normalisation shows only in one part of the range.",
 [A,"tf_encrypted/protocol/aby3/fp.py"],"_exp2_private, _exp_private, _log_private, _sigmoid_private, _softmax_private, fp.fp_div / fp_recip_private / fp_sqrt2")
p("C08","No single ABY3 server learns anything about private values",
 "For every ABY3 operation on private values that reveals nothing, everything a single server receives and computes has a distribution that does not depend on the private values. A value revealed to all adds nothing beyond itself.",
 ["inputs","histories"],"all secrets and all values of the randomness a server does not know, in a small ring, for each of the three servers and each interactive operation and short sequences of them",
 "No test looks at a server's view; results stay right when a mask is dropped, reused, or sent to the wrong server.",
 [A],"_share, _gen_zero_sharing, _gen_b2a_sharing, _ot, resharing steps, tf.device scopes")
p("C09","Masks are never reused and the servers' generators stay in step",
 "Over any sequence of ABY3 operations in one session, two different masking draws never come from the same seed, and the servers that share a key always draw the same values for the same step. Fresh sharings and Pond/SecureNN masks always use fresh seeds.",
 ["histories","programs"],"all sequences of protocol operations up to a depth, all pairs of randomness-consuming operations",
 "Results stay correct when a keystream is reused, so no functional test can notice.",
 [A,TS,"tf_encrypted/tensor/native.py","tf_encrypted/tensor/int128.py","tf_encrypted/tensor/boolfactory.py"],"pairwise nonces, b2a nonce, secure_seed use, SeededTensor/UniformTensor expansion")
p("C10","Pond arithmetic on shares equals plaintext arithmetic",
 "Addition, subtraction, negation, multiplication, squaring, matrix multiplication, convolution, sums, shaping, masking and truncation of Pond private, masked and public tensors reveal the plaintext result (exactly in the ring for unscaled values, to within the truncation error for scaled values), for every operand combination, triple source and random choice.",
 ["inputs","configurations","histories"],"all operand pairs and all masks of a small ring; boundary words of the 64- and 100-bit rings; every combination of private, masked, public and number operand; sequences that reuse a masked operand",
 "Tests use few small values and fresh masks; reuse of cached masks across operations, unusual axes and truncation edge values are not explored.",
 [PO,TS],"_add_*/_sub_*/_mul_*/_matmul_*/_square_*/_conv2d_*/_mask_*/_truncate_*, triple sources")
p("C11","Neither Pond server nor the triple producer learns private values",
 "For every Pond operation on private values that reveals nothing, the view of each of the two servers and the view of the triple producer have distributions that do not depend on the private values.",
 ["inputs","histories"],"all secrets and all randomness unknown to the party, in a small ring, for each party and each operation and short sequences",
 "No test looks at a party's view; results stay right if a mask is not random or is placed on the wrong party.",
 [PO,TS],"_share, _mask_private, triple generation and tf.device scopes, SeededTensor distribution")
p("C12","SecureNN comparisons, ReLU and maxima agree with the plaintext",
 "Most significant bit, order comparisons, select, bitwise operations, ReLU, maximum, reduce_max, argmax (ties may give any of the tied positions) and max pooling of SecureNN private tensors reveal the plaintext result for all values in the supported range, whatever randomness was drawn.",
 ["inputs","configurations"],"all pairs of boundary words with both outcomes of each random swap and boundary masks; all small vectors with ties",
 "Failures depend on rare masks (wrap-around, zero shares, equality of mask and value); tests sample one mask per run.",
 [SN,OD],"_lsb_private, _private_compare*, _share_convert, select, maximum, reduce_max, _argmax_fold")
p("C13","SecureNN reveals no private value to any of its three parties",
 "During SecureNN comparison and selection the view of each server and of the third party has a distribution that does not depend on the private values.",
 ["inputs"],"all secrets of an alphabet and the complete set of unknown random choices the harness drives, for each party",
 "Results stay right when blinding, random swap or permutation is lost; no test looks at views.",
 [SN,OD,PO],"_private_compare blinding, _lsb_private random swap, share conversion")
p("C14","Tensor back-ends implement exact modular arithmetic",
 "Every tensor back-end (native 8/16/32/64-bit, boolean, explicit-modulus, CRT 100-bit, odd-modulus) computes the element-wise, reduction, matrix, convolution, comparison, bit and sampling operations it offers exactly modulo its modulus, and converts to and from native numbers without loss over its whole range.",
 ["inputs","configurations"],"all operand pairs of the 8-bit and small-modulus back-ends; all pairs of boundary words of the wider ones; every operation of the common interface",
 "Tests check a few small positive numbers; overflow, negative representatives and the CRT wrap-around are not covered.",
 ["tf_encrypted/tensor/native.py","tf_encrypted/tensor/boolfactory.py","tf_encrypted/tensor/int100.py","tf_encrypted/tensor/helpers.py","tf_encrypted/tensor/shared.py",OD],"Tensor.add/sub/mul/matmul/mod/truncate/bits/equal_zero, crt helpers, odd tensor add/sub")
p("C15","128-bit tensors behave as 128-bit two's complement integers",
 "The 128-bit tensor back-end and its kernels add, subtract, multiply, truncate, negate, compare for equality, shift, logically combine, sum, matrix-multiply, encode and decode exactly as 128-bit two's complement integers, for every operand including those crossing the 64-bit word boundary.",
 ["inputs","configurations"],"all pairs of boundary words around every bit position; every shift amount; every axis and rank of the structural operations within bounds",
 "Tests use small numbers, so the upper word, the carry between words and sign handling are hardly touched.",
 ["tf_encrypted/tensor/int128.py","tf_encrypted/operations/tf_i128/tf_i128.py","operations/tf_i128"],"i128_* kernels and int128 Tensor methods")
p("C16","Bit-manipulation kernels compute the documented bit permutations",
 "bit_reverse, bit_gather, bit_split_and_gather and xor_indices return for every word of every supported width the documented rearrangement of its bits.",
 ["inputs","configurations"],"all 8-bit and 16-bit words and all boundary words of wider types, for every start and stride",
 "Tests check a few words per kernel.",
 ["operations/aux","tf_encrypted/operations/aux/aux.py"],"BitReverse, BitGather, BitSplitAndGather, XorIndices kernels")
p("C17","Secure randomness is in range, reproducible by seed, and unbiased",
 "Seeded sampling is a function of the seed and parameters only, every sample lies in the requested range, different seeds and different calls of the unseeded generators give different streams, and mapping generator words to a range gives every value equal weight.",
 ["inputs","configurations"],"every range of 8-bit samples, boundary ranges of wider types, block-boundary lengths, and seeds that differ in any one word",
 "Tests draw a few samples and check ranges; bias, stream overlap between blocks and edge ranges are not checked.",
 ["operations/secure_random","tf_encrypted/operations/secure_random/secure_random.py","tf_encrypted/tensor/native.py"],"Generator (rejection sampling), seed op, kernels")
p("C18","Shared datasets on disk read back exactly what was written",
 "After any sequence of writes and appends, reading private fixed-point tensors (or plain records) returns exactly the written rows in order, in the requested batches and shapes, across several files and epochs; a write that cannot reach the disk raises. The MNIST dataset objects give each row at most once per epoch with its own label, in one order for images and labels.",
 ["histories","configurations"],"all write/append/read sequences up to a depth, all batch sizes, file groupings and shapes within bounds",
 "Tests write once and read one batch.",
 [A,"operations/dataset","tf_encrypted/operations/dataset/dataset.py"],"_write_private, _read_, write_record.cc, MnistDataset generators")
p("C19","Variables return the last value assigned and caching never changes results",
 "After any sequence of definitions, operations, assignments and reads, read_value of a private or public variable gives the last value assigned to it, tensors read earlier keep their value, and every operation's result depends only on its arguments at the call, no matter what calls were made before or on which protocol object.",
 ["histories"],"all sequences of define/operate/assign/read calls up to a depth, all pairs of calls with different arguments",
 "The node cache makes a result depend on earlier calls; tests make each call once on fresh tensors.",
 ["tf_encrypted/protocol/protocol.py",A,AT,PO,"tf_encrypted/tensor/native.py"],"memoize cache keys, Pond node keys, Variable.read_value/assign")
p("C20","Graph functions compute what the eager run computes",
 "A computation wrapped as a tf-encrypted function gives on every call, for every input and after any earlier calls, the same result as running it directly, including assignments to variables it makes.",
 ["histories","programs"],"all programs from a small grammar and all call sequences up to a depth",
 "Tests check one call of one function.",
 ["tf_encrypted/__init__.py","tf_encrypted/protocol/protocol.py","tf_encrypted/protocol/aby3/aby3_tensors.py"],"tfe.function, TensorBone from/to conversion, memoize in graphs")
p("C21","Protocol and player configuration is scoped and resolved correctly",
 "The current protocol is the one set or entered last; leaving a context, normally or by an exception and in any nesting (also of the same protocol), brings back the protocol that was current when it was entered. Configurations map every player to its own name, index, device and address, a remote configuration's host map survives saving and loading in order, servers are started for the right task, and protocols place each role on the player chosen for it.",
 ["histories","configurations"],"all nestings and set/reset sequences up to a depth, all player sets up to a size",
 "Tests use one context at a time and one fixed player list.",
 ["tf_encrypted/__init__.py","tf_encrypted/protocol/protocol.py","tf_encrypted/config.py"],"Protocol.__enter__/__exit__, set_protocol, set_config, LocalConfig, RemoteConfig")
p("C22","Queues of shared values are FIFO and lose nothing",
 "A queue of private values returns every enqueued value exactly once and in order, keeping shares of one value together, for every sequence of enqueues and dequeues and every interleaving of a producer with a consumer; different queues do not mix, values of another kind or shape are refused without a trace, each share waits on its own server, and served predictions come back in request order, one per server step.",
 ["histories","schedules"],"all enqueue/dequeue sequences up to a depth and capacity, all interleavings of clients and server steps",
 "Tests enqueue and dequeue once.",
 ["tf_encrypted/queue/fifo.py","tf_encrypted/serving/queues.py",PO],"AbstractFIFOQueue, FIFOQueue, QueueServer, QueueClient")
p("C23","Keras layers compute the plain Keras forward and gradient results",
 "Each private Keras layer gives the same forward output, to fixed-point accuracy (and the accuracy of the sigmoid's approximation), as the plain layer with the same weights, announces the shape of its output, and where it has a backward pass gives the plain gradients with respect to inputs and weights of its last call, for every combination of constructor options, shapes and sequence of calls. New weights take effect at once and leave the caller's list alone.",
 ["inputs","configurations"],"every combination of the layer's constructor options, small shapes and private or public inputs within bounds",
 "Tests use one configuration per layer and never compare layer gradients.",
 ["tf_encrypted/keras/layers"],"call/backward of Dense, Conv2D, DepthwiseConv2D, pooling, BatchNormalization, Activation, Flatten, Reshape, ReLU")
p("C24","Training steps match plaintext training",
 "Loss values, loss gradients, optimizer updates and whole training steps on private data equal the plaintext computation to fixed-point accuracy, over any sequence of steps.",
 ["histories","configurations"],"every loss and optimizer configuration, all short step sequences within bounds",
 "Tests check a loss value or that training runs; updates over several steps and momentum state are not compared.",
 ["tf_encrypted/keras/losses.py","tf_encrypted/keras/optimizers.py","tf_encrypted/keras/models"],"Loss.call/grad, SGD/AMSgrad/Adam, BaseModel.fit_batch, Sequential.backward")
p("C25","Converted models predict like the original TensorFlow graph",
 "A model converted to tf-encrypted (under ABY3) computes on private inputs the outputs of the original graph to fixed-point accuracy, and trains with its gradients, for every supported operation, attribute and graph shape. What the converter does not support it refuses rather than computing something else.",
 ["programs","configurations"],"every supported operation with every attribute combination within bounds",
 "Tests convert one instance of each operation.",
 ["tf_encrypted/convert/convert.py","tf_encrypted/convert/nodes.py"],"Converter.convert and node classes")
p("C26","Local computations and inputs stay with the player they belong to",
 "Private inputs, local computations and the batches of data owners are evaluated only on the named player's device, only shares of them leave it, and outputs are opened only to the receiving player. The function gets exactly the values given to it, and what arrives is exactly what it returned; a data owner provides its batches in order on every pass.",
 ["configurations","inputs"],"every player, every input form (function, decorator, with arguments, several outputs) and every protocol",
 "Tests run all players on one device, so placement is invisible.",
 [A,PO,"tf_encrypted/player/data_owner.py","tf_encrypted/config.py"],"define_private_input, define_local_computation, local_computation, define_output")
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+"\n")
import re
for d in P:
    assert len(d['title'])<=80,(d['id'],len(d['title']))
    assert len(re.findall(r'\.\s|\.$',d['statement']))<=3,d['id']
print(len(P))

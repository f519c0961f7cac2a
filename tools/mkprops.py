import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    d['anchors']['observe_at']=observe or []
    d['anchors']['hook_needed']=None
    P.append(d)

p('C01','Prediction computes the network function on every build and size',
 'For every network (any number of layers, any layer sizes, weights and biases) and every input vector, prediction writes exactly the network\'s outputs: each layer computes activation(bias + weight-transposed times previous layer) and feeds the next one. It writes nothing outside the caller\'s output vector and leaves the network and the input unchanged, and the result is the same function whichever vector instruction set or BLAS option the library was built with.',
 ['inputs','configurations'],'all layer counts, layer sizes, parameter values, input values and buffer alignments, for each instruction-set build (plain, AVX, AVX2+FMA, AVX-512, BLAS)',
 'The tests run one instruction-set build on a few small fixed networks; chunked vector loops with tails (16/8/1) only fail at particular sizes and alignments, and the zero and one input shortcuts only at particular values.',
 ['src/neuralnet.c','src/matrix_operations.c','src/activation.c'],
 [('layer-wise forward pass with stack work memory','src/neuralnet.c neuralnet_predict'),('vector-matrix kernel with 16/8/1 chunking','src/matrix_operations.c vector_matrix_multiply')],
 observe=['output vector of neuralnet_predict'])
p('C02','Vector and matrix kernels meet their definitions for every length',
 'Every vector and matrix kernel (matrix-vector product, outer product, vector-matrix product with bias, accumulate, scale, divide, a*x+y, a*x+b*y) computes its mathematical definition in every element for every length including zero, and changes no element outside its destination. This holds on each instruction-set build.',
 ['inputs','configurations'],'all lengths/row and column counts, all element values, all alignments the kernel is documented to accept, for each instruction-set build',
 'Kernel tests use a handful of lengths and one build; a wrong tail bound or pointer step shows only for some residue of the length modulo 8 or 16.',
 ['src/matrix_operations.c','src/matrix_operations.h'],
 [('chunked AVX-512/AVX/scalar loops','src/matrix_operations.c')],observe=['destination array of each kernel'])
p('C03','Numeric code never touches memory outside or misaligned for its buffers',
 'For every valid network, sample and buffer that satisfies the documented requirements, prediction, gradient computation, parameter update and the vector kernels, activations, losses and metrics read and write only inside their operands, never use an aligned vector access on an address that may be misaligned, and never overflow an index computation.',
 ['inputs','configurations'],'all sizes and all buffer alignments for each instruction-set build',
 'Faults show only for particular sizes and addresses (a gradient slice that is not a multiple of the vector width, an output vector on an odd address); tests use small sizes where the vector path is not entered.',
 ['src/matrix_operations.c','src/activation.c','src/neuralnet.c','src/loss.c','src/metrics.c'],
 [('aligned/unaligned vector loads and stores, peel loops','src/matrix_operations.c, src/activation.c'),('padded work memory','src/neuralnet.c')],observe=['sanitizer or hardware fault','bytes outside operands'])
p('C04','Backpropagation returns the chain-rule gradient in parameter order',
 'For every network, input and target, the gradient vector delivered equals the chain-rule gradient built from the loss derivative and the activation derivatives of each layer, laid out layer by layer with biases before weights. It fills exactly as many entries as there are parameters, whatever the vector contained before, and does not change the network, the input or the target.',
 ['inputs','configurations'],'all layer counts and sizes, parameter values, samples, targets and previous contents of the gradient vector, for each instruction-set build',
 'The gradient test compares two small nets on one build; layout mistakes and stale-content dependence need other sizes or prior contents, and one build hides differences in the others.',
 ['src/neuralnet.c','src/matrix_operations.c','src/activation.c','src/loss.c'],
 [('backward pass over layers','src/neuralnet.c neuralnet_backpropagation'),('derivative of each layer','src/neuralnet.c neuralnet_set_loss'),('outer product and matrix-vector kernels','src/matrix_operations.c')],observe=['gradient vector'])
p('C05','Activation functions and derivatives follow their definitions',
 'Each named activation (linear, relu, sigmoid, tanh, softplus, softsign, hard_sigmoid, exponential, softmax) transforms every element of a vector of any length by its mathematical definition, independent of the element\'s position and the vector\'s alignment. Each derivative multiplies the incoming gradient by the activation\'s derivative expressed through the activation value, and nothing outside the vector changes.',
 ['inputs','configurations'],'all vector lengths, positions, alignments and element values, for each instruction-set build',
 'Tests sample a few values at a few lengths on one build; wrong lanes, tails or peel loops need a specific length and address, and an overflow needs a large element.',
 ['src/activation.c','src/activation.h'],[('scalar and vector implementations','src/activation.c')],observe=['transformed vector'])
p('C06','Loss functions deliver the gradient of the loss they name',
 'For every prediction and target vector of any length, each named loss writes, element by element, the derivative of the corresponding error measure with respect to the prediction, using the documented output-layer simplification for the cross-entropy losses. It writes exactly the given number of elements.',
 ['inputs'],'all vector lengths and all prediction/target values including signs, ties and values at the clipping limits',
 'The tests sample random positive values; sign handling, zero targets and clipping need specific values.',
 ['src/loss.c','src/loss.h','src/neuralnet.c'],[('per-element loss derivative','src/loss.c'),('choice of the loss and the output-layer simplification','src/neuralnet.c neuralnet_set_loss')],observe=['gradient output of each loss'])
p('C07','Metrics compute their definitions',
 'For every prediction and target vector of any length, each named metric returns its mathematical definition (mean squared, mean absolute and mean absolute percentage error, binary and categorical cross-entropy with clipped predictions, binary and categorical accuracy) over exactly those elements.',
 ['inputs'],'all vector lengths and all prediction/target values',
 'Tests compare a few random vectors; sign, clipping and threshold cases and vector lengths are sampled only.',
 ['src/metrics.c','src/metrics.h'],[('per-vector metric functions','src/metrics.c')],observe=['returned metric value'])
p('C08','Names of activations, losses and metrics round-trip consistently',
 'Looking up any documented activation, loss or metric name gives a function, the name reported for that function looks up the same function again, and distinct functions have distinct names; every built-in activation has its own derivative. A name that is not known yields no function, so that a typo is never silently mapped to something else.',
 ['inputs'],'all strings as names and all functions in the registries',
 'Tests check some of the names; every other string and the consistency between the separate tables is not covered.',
 ['src/activation.c','src/loss.c','src/metrics.c'],[('name/function tables','src/activation.c, src/loss.c, src/metrics.c')],observe=['returned function pointers and names'])
p('C09','Saved arrays and archives read back identically',
 'Every array with up to the supported number of dimensions, element type, order and shape that can be written is read back with the same shape, element type, size, order and data, whether stored alone or in an archive, and the written header is a valid header of that file format (aligned, terminated, with the correct length field).',
 ['inputs'],'all shapes, element sizes, type characters and byte orders, all contents',
 'Tests write a few shapes; header length and padding depend on the digits of the shape, and only some lengths cross a padding or byte boundary.',
 ['npy_array/npy_array.c','npy_array/npy_array_list.c'],[('header formatter and parser','npy_array/npy_array.c')],observe=['bytes of the header','array after load'])
p('C10','Loading arbitrary bytes as an array never crashes',
 'For every file content, loading either yields a well-formed array whose data buffer matches its shape and element size, or reports failure by returning nothing. It never aborts the process and never reads or writes outside its buffers.',
 ['inputs','fault_sequences'],'all byte sequences as file contents, including truncated files and failing reads and allocations',
 'Tests load well-formed files and two or three malformed ones; truncation at each point and malformed header fields are unbounded.',
 ['npy_array/npy_array.c','npy_array/npy_array_list.c'],[('header parsing','npy_array/npy_array.c')],observe=['result of the load functions','process status'])
p('C11','A loaded network is consistent with its file or is refused',
 'Loading a network file yields a network whose layer sizes, parameters and activations are those of the file, and which after saving and loading again is the same network. A file whose members do not describe a consistent network is refused by returning nothing, without crashing or writing outside its buffers.',
 ['inputs'],'all archives: member counts, shapes, element types, orders and activation names',
 'Tests load one file produced by the library or by the python script; inconsistent shapes, wrong element types and missing members are not covered.',
 ['src/neuralnet.c','npy_array/npy_array_list.c'],[('archive to network conversion','src/neuralnet.c neuralnet_load'),('network to archive conversion','src/neuralnet.c neuralnet_save')],observe=['loaded network','process status'])
p('C12','Optimizer steps follow their published update rules',
 'For every parameter vector, gradient sequence and setting, one step of each optimizer (SGD with and without momentum and Nesterov, RMSprop with and without momentum, Adagrad, Adam, AdamW) changes every parameter and every state variable exactly by its update rule, including bias correction, learning-rate decay and weight decay, and this holds at every step of the history.',
 ['inputs','histories'],'all parameter counts, gradients, hyper-parameters and step numbers',
 'Tests check that training lowers a loss; a wrong state update or step count after many steps still trains.',
 ['src/SGD.c','src/RMSprop.c','src/adagrad.c','src/adam.c'],[('per-batch update','src/SGD.c, src/RMSprop.c, src/adagrad.c, src/adam.c')],observe=['network parameters and optimizer state after each step'])
p('C13','Each epoch uses every sample exactly once in mean-gradient batches',
 'In every epoch the order of samples is a permutation of all samples, batches take consecutive parts of that order with the last one possibly shorter, each sample contributes to exactly one batch, and the gradient used for a batch is the mean of the gradients of its samples, for every number of samples and batch size.',
 ['inputs','histories','schedules'],'all sample counts, batch sizes, shuffle outcomes, thread counts and epochs',
 'Tests use one dataset size and batch size; the partial last batch, changing sample counts between epochs and thread counts are not covered.',
 ['src/optimizer.c','src/SGD.c','src/RMSprop.c','src/adagrad.c','src/adam.c'],[('shuffled index vector','src/optimizer.c'),('batch gradient','src/optimizer.c optimizer_calc_batch_gradient')],observe=['samples visited per epoch','batch gradient'])
p('C14','Optimizers and callbacks are independent of each other',
 'Any number of networks, optimizers, early-stopping and checkpoint objects may be created, used in any interleaving and freed, and each behaves exactly as if it were the only one in the process.',
 ['histories'],'all interleavings of creation, use and release of several objects',
 'Tests use one object of a kind per process, so state shared between objects never shows.',
 ['src/optimizer.c','src/adam.c','src/earlystopping.c','src/modelcheckpoint.c'],[('per-object state','optimizer and callback structs')],observe=['behaviour of a second object'])
p('C15','Early stopping and checkpoints follow the monitored score exactly',
 'For every history of monitored scores, early stopping asks to stop exactly when the best score has not improved for more than the configured number of epochs, and a checkpoint is saved exactly when the score improves on the best so far, respecting whether larger or smaller is better and which metric and data set are monitored.',
 ['histories'],'all score histories, patience values, directions and monitor indexes',
 'Tests use one monotone history; ties, first-epoch behaviour, larger-is-better and long plateaus are not covered.',
 ['src/earlystopping.c','src/modelcheckpoint.c'],[('best-so-far tracking','src/earlystopping.c, src/modelcheckpoint.c')],observe=['stop request','saved files'])
p('C16','All components agree on the parameter vector layout',
 'Reading all parameters, counting them, updating them and the gradient use one and the same layout for every network: layer by layer, biases then weights in row order. Reading returns exactly the current values, and an update adds to each parameter the entry at its own position and touches nothing else.',
 ['inputs'],'all layer counts, sizes and values, for each build',
 'Tests read parameters of one network; an offset error between layers needs particular size combinations.',
 ['src/neuralnet.c','src/neuralnet.h'],[('running pointer over layers','src/neuralnet.c neuralnet_update, neuralnet_get_parameters')],observe=['parameters before and after update'])
p('C17','Creating a network validates its arguments and never leaks or crashes',
 'Creating a network yields one with exactly the requested layers, sizes and activations, or refuses by returning nothing when a size or the number of layers is not positive or memory runs out at any allocation, releasing everything already allocated exactly once; freeing a network releases all of it. An unresolvable activation name is reported and replaced by the linear one.',
 ['inputs','fault_sequences'],'all layer counts, sizes and activation lists; failure of any one allocation',
 'Tests never make an allocation fail and use valid sizes, so the error paths and size overflow are unexercised.',
 ['src/neuralnet.c','src/simd.h'],[('allocation with cleanup path','src/neuralnet.c neuralnet_create')],observe=['returned network','allocations outstanding'])
p('C18','Initial parameters are finite, bounded by the scheme, biases zero',
 'Initialising a network sets every bias to zero and every weight of every layer to a finite value drawn by the named scheme with the scale that scheme prescribes for that layer\'s sizes, for every outcome of the random generator, and changes nothing else.',
 ['inputs'],'all layer sizes, schemes and outcomes of the random generator',
 'Tests look at one pseudo-random sequence; rare generator outcomes are never drawn.',
 ['src/neuralnet.c'],[('random fill','src/neuralnet.c neuralnet_initialize')],observe=['weights and biases after initialisation'])
p('C19','Evaluation returns the mean metric over all samples',
 'For every data set and every list of metrics, evaluation returns for each metric, in list order, the mean over all samples of that metric between the network\'s prediction for the sample and its target, and writes exactly one number per metric.',
 ['inputs','schedules'],'all sample counts, networks and metric lists',
 'Tests evaluate one data set; indexing by sample and metric order is only sampled.',
 ['src/evaluate.c'],[('sample loop with per-metric sums','src/evaluate.c')],observe=['results vector'])
p('C20','Array lists keep order, length and ownership',
 'Appending, prepending, counting and freeing arrays in a list behave as on a mathematical sequence: for every history of operations the order and length are as expected, stored names are exact copies, and every array in the list is released exactly once.',
 ['histories','inputs'],'all operation sequences, list lengths and member names',
 'Tests build one or two short lists; names with unusual characters or lengths and longer histories are not covered.',
 ['npy_array/npy_array_list.c'],[('linked list operations','npy_array/npy_array_list.c')],observe=['list traversal','allocations outstanding'])
p('C21','Batch prediction equals predicting each sample alone',
 'For every network and number of samples, batch prediction writes for every sample exactly the output that predicting that sample alone gives, in sample order, and nothing else, on every build including the BLAS one and however large the batch is.',
 ['inputs','configurations'],'all networks, sample counts (including zero), output widths, alignments and builds',
 'Tests use one network with one output width; widths that are not a multiple of the vector length and very large batches or layers are not covered.',
 ['src/neuralnet_predict_batch.c'],[('per-sample prediction or matrix multiplication with splitting','src/neuralnet_predict_batch.c')],observe=['output matrix'])
p('C22','Training logs continue correctly and logging never corrupts memory',
 'For every existing log file content and any number of metrics, logging appends one complete record per epoch, continues epoch numbering after the last recorded epoch, and never writes or reads outside its buffers.',
 ['inputs','histories'],'all prior log contents, metric counts and metric values',
 'Tests log a few epochs to a fresh file; empty or foreign files, many metrics and restarted logs are not covered.',
 ['src/logger.c'],[('log record formatting and resume','src/logger.c')],observe=['log file','process status'])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
print(len(P))

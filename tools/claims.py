claim('C02', 'proof', 'All ten kernels, six instruction-set builds, all lengths. Float arithmetic as reals.')
claim('C03', 'proof', 'Bounds, alignment, null, overflow and frame obligations of every numeric function under contract, four to six builds. Float-to-real; OpenMP sequential.')
claim('C05', 'proof', 'Nine activations and nine derivatives, four builds, all lengths; the vector exponential is proved within 1.2e-7 (relative, over the reals) of exp on [-87, 87] and used as exp.')
claim('C06', 'proof', 'Five losses and their aliases, all lengths; choosing a loss for a network of any depth sets it and the derivative of every layer; floats as reals.')
claim('C07', 'proof', 'Seven metrics and their aliases, all lengths >= 1; floats as reals.')
claim('C08', 'proof', 'All documented names and every other string; dynamic (@) names through an assumed contract of the loader.')
claim('C01', 'proof', 'Layer-by-layer network function for every depth and every layer size in seven builds (cblas functions assumed in the BLAS one); kernels and activations through their own proved contracts; places of the hidden vectors by induction over the layers. Floats as reals.')
claim('C04', 'proof', 'Chain-rule gradient in parameter order for every depth and every layer size in six builds; kernels, activations, derivatives and losses through their own contracts. Floats as reals.')
claim('C16', 'proof', 'Layout of gradient, parameter vector, update and count for every depth and every layer size.')
claim('C19', 'proof', 'Any number of samples, metrics, layers and sizes; the mean is over the reals. BLAS build included (cblas functions assumed).')
claim('C21', 'proof', 'Any number of samples, layers and sizes in four builds. BLAS build: any number of samples and sizes, splitting at any depth; the direct computation for one to three layers (bounded), cblas functions assumed.')
claim('C12', 'proof', 'One arbitrary step of each optimizer from an arbitrary state, in four builds, plus construction and release; reals, sequential OpenMP semantics.')
claim('C13', 'proof', 'Batch loop of every optimizer, batch gradient and sample order for any number of samples and any batch size; "exchanging two entries keeps a permutation" is the only meta-argument; OpenMP sequential.')
claim('C14', 'proof', 'Ownership contracts of constructors and releases, state transitions confined to the object, and a frame obligation for every writable static of the library.')
claim('C15', 'proof', 'State transition of both callbacks from an arbitrary reachable state, for all settings and scores (scores strictly between -FLT_MAX and FLT_MAX on the first epoch).')
claim('C18', 'proof', 'Random number functions for every outcome of rand() and any number of calls; neuralnet_initialize for any depth, layer sizes (products up to INT_MAX), schemes and activations. Reals.')
claim('C20', 'proof', 'Lists of any length; text formatting, malloc and munmap through assumed contracts.')
claim('C17', 'proof', 'neuralnet_create for any number of layers and any sizes up to 2^30, the first failing allocation anywhere; neuralnet_free for any network. Name lookup through the contract of C08.')
claim('C22', 'proof', 'One record per call on both streams for any number of metrics; the scan of an existing log is an invariant over every character sequence. stdio, time and localtime through assumed contracts.')
claim('C11', 'proof', 'Loading: archives with any number of arrays of any type, shape and order, any allocation failing; accepted exactly when consistent. Saving: any number of layers of any size; a lemma composes both. Uses the contracts of the archive, array, name and construction functions, whose tasks are part of this check.')
claim('C10', 'proof', 'Every byte sequence, every reader behaviour (short reads, errors), file and mapped reading, archives with any number of entries; up to 8 dimensions by case. C string functions, stdio, mmap and libzip through assumed contracts (C locale, file not changed while mapped).')
claim('C09', 'proof', 'Header text, save, load and mapping for every shape, element size, type, order and content, one case per number of dimensions 0..8; archives with any number of entries. printf/strto/strstr over texts, stdio, mmap and libzip through assumed contracts; enough memory; data sizes up to PTRDIFF_MAX.')

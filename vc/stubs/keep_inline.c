/* makes the compiler emit the bodies of /repo's static inline header functions */
#include "optimizer.h"
#include "neuralnet.h"
#include "callback.h"
void *vc_keep_inline[] = { (void*)optimizer_free, (void*)optimizer_get_n_metrics, (void*)neuralnet_total_n_parameters,
    (void*)neuralnet_get_n_layers, (void*)callback_run, (void*)callback_free };

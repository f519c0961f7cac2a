From 373de699bd001a83b0a5f1594df9d41e3e514281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:50 +0000
Subject: [PATCH 01/24] fix: matrix_vector_multiply: unaligned row loads,
 initialise the result

Rows of the matrix are only aligned when n_cols is a multiple of the SIMD
width, and y was accumulated into without being initialised in non AVX512
builds.
---
 src/matrix_operations.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/matrix_operations.c b/src/matrix_operations.c
index 21ea4be..4b108cd 100644
--- a/src/matrix_operations.c
+++ b/src/matrix_operations.c
@@ -45,13 +45,14 @@ void matrix_vector_multiply( int n_rows, int n_cols, const float *matrix, const
         const float *v_ptr = v;
         int j = 0;
 
+        y[i] = 0.0f;
 #ifdef __AVX512F__
         __m512 sums = _mm512_setzero_ps ();
         for (; j <= ((n_cols)-16); j += 16, m_ptr += 16, v_ptr += 16){ /* Check if faster: unroll w prefetch */
 #if defined(__FMA__)
-            sums = _mm512_fmadd_ps( _mm512_loadu_ps(v_ptr), _mm512_load_ps(m_ptr), sums);
+            sums = _mm512_fmadd_ps( _mm512_loadu_ps(v_ptr), _mm512_loadu_ps(m_ptr), sums);
 #else
-            sums = _mm512_add_ps (sums, _mm512_mul_ps(_mm512_loadu_ps(v_ptr), _mm512_load_ps(m_ptr)));
+            sums = _mm512_add_ps (sums, _mm512_mul_ps(_mm512_loadu_ps(v_ptr), _mm512_loadu_ps(m_ptr)));
 #endif
         }
         y[i] = _mm512_reduce_add_ps( sums );
@@ -60,9 +61,9 @@ void matrix_vector_multiply( int n_rows, int n_cols, const float *matrix, const
         __m256 sum = _mm256_setzero_ps ();
         for (; j <= ((n_cols)-8); j += 8, m_ptr += 8, v_ptr += 8){ /* Check if faster: unroll w prefetch */
 #if defined(__FMA__)
-            sum = _mm256_fmadd_ps( _mm256_loadu_ps(v_ptr), _mm256_load_ps(m_ptr), sum);
+            sum = _mm256_fmadd_ps( _mm256_loadu_ps(v_ptr), _mm256_loadu_ps(m_ptr), sum);
 #else
-            sum = _mm256_add_ps (sum, _mm256_mul_ps(_mm256_loadu_ps(v_ptr), _mm256_load_ps(m_ptr)));
+            sum = _mm256_add_ps (sum, _mm256_mul_ps(_mm256_loadu_ps(v_ptr), _mm256_loadu_ps(m_ptr)));
 #endif
         }
         y[i] += horizontalsum_avx( sum );
-- 
2.43.0


From 6dd5bed2a65934ca188a60094e45ef43c10de534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:20 +0000
Subject: [PATCH 02/24] fix: vector_matrix_multiply: do not require an aligned
 bias or result

neuralnet_predict() takes any float buffer as output, and
neuralnet_predict_batch() writes rows of n_output floats.
---
 src/matrix_operations.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/matrix_operations.c b/src/matrix_operations.c
index 4b108cd..c96f390 100644
--- a/src/matrix_operations.c
+++ b/src/matrix_operations.c
@@ -129,12 +129,12 @@ void vector_matrix_multiply( int n, int m, const float *weight, const float *bia
 
 #ifdef __AVX512F__
     for (; i <= ((m)-16) ; i += 16, bias_ptr +=16, y_ptr +=16 ){
-        _mm512_store_ps( y_ptr, _mm512_load_ps( bias_ptr ));
+        _mm512_storeu_ps( y_ptr, _mm512_loadu_ps( bias_ptr ));
     }
 #endif
 #ifdef __AVX__
     for (; i <= ((m)-8) ; i += 8, bias_ptr +=8, y_ptr +=8 ){
-        _mm256_store_ps( y_ptr, _mm256_load_ps( bias_ptr ));
+        _mm256_storeu_ps( y_ptr, _mm256_loadu_ps( bias_ptr ));
     }
 #endif
     for( ; i < m; i++ ){
@@ -150,11 +150,11 @@ void vector_matrix_multiply( int n, int m, const float *weight, const float *bia
                 int j = 0;
 #ifdef __AVX512F__
                 for (; j <= ((m)-16) ; j += 16, y_ptr += 16, weight_ptr += 16) 
-                    _mm512_store_ps(y_ptr, _mm512_add_ps (_mm512_load_ps(y_ptr), _mm512_loadu_ps( weight_ptr )));
+                    _mm512_storeu_ps(y_ptr, _mm512_add_ps (_mm512_loadu_ps(y_ptr), _mm512_loadu_ps( weight_ptr )));
 #endif /*  __AVX512F__ */
 #ifdef __AVX__
                 for (; j <= ((m)-8) ; j += 8, y_ptr += 8, weight_ptr += 8) 
-                    _mm256_store_ps(y_ptr, _mm256_add_ps (_mm256_load_ps(y_ptr), _mm256_loadu_ps( weight_ptr )));
+                    _mm256_storeu_ps(y_ptr, _mm256_add_ps (_mm256_loadu_ps(y_ptr), _mm256_loadu_ps( weight_ptr )));
 #endif /*  __AVX__ */
                 for( ; j < m; j++ )
                     *y_ptr++ += *weight_ptr++;
@@ -163,9 +163,9 @@ void vector_matrix_multiply( int n, int m, const float *weight, const float *bia
 #ifdef __AVX512F__
                 for (; j < ((m)-16) ; j += 16, y_ptr += 16, weight_ptr += 16){
 #if defined(__FMA__)
-                    _mm512_store_ps(y_ptr, _mm512_fmadd_ps( _mm512_loadu_ps(weight_ptr), _mm512_set1_ps(inp), _mm512_load_ps(y_ptr)));
+                    _mm512_storeu_ps(y_ptr, _mm512_fmadd_ps( _mm512_loadu_ps(weight_ptr), _mm512_set1_ps(inp), _mm512_loadu_ps(y_ptr)));
 #else
-                    _mm512_store_ps(y_ptr, _mm512_add_ps(_mm512_load_ps(y_ptr), _mm512_mul_ps(_mm512_loadu_ps(weight_ptr), _mm512_set1_ps(inp))));
+                    _mm512_storeu_ps(y_ptr, _mm512_add_ps(_mm512_loadu_ps(y_ptr), _mm512_mul_ps(_mm512_loadu_ps(weight_ptr), _mm512_set1_ps(inp))));
 #endif  
                 }
 #endif
@@ -173,9 +173,9 @@ void vector_matrix_multiply( int n, int m, const float *weight, const float *bia
                 __m256 scalevec = _mm256_set1_ps(inp);
                 for (; j < ((m)-8) ; j += 8, y_ptr += 8, weight_ptr += 8){
 #if defined(__FMA__)
-                    _mm256_store_ps(y_ptr, _mm256_fmadd_ps( _mm256_loadu_ps(weight_ptr), scalevec, _mm256_load_ps(y_ptr)));
+                    _mm256_storeu_ps(y_ptr, _mm256_fmadd_ps( _mm256_loadu_ps(weight_ptr), scalevec, _mm256_loadu_ps(y_ptr)));
 #else
-                    _mm256_store_ps(y_ptr, _mm256_add_ps(_mm256_load_ps(y_ptr), _mm256_mul_ps(_mm256_loadu_ps(weight_ptr), scalevec)));
+                    _mm256_storeu_ps(y_ptr, _mm256_add_ps(_mm256_loadu_ps(y_ptr), _mm256_mul_ps(_mm256_loadu_ps(weight_ptr), scalevec)));
 #endif  
                 }
 #endif
-- 
2.43.0


From 4de9416e62d006dc9dc04e326a0e1ae8ed9ddbd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:26 +0000
Subject: [PATCH 03/24] fix: tanh and the relu, sigmoid and tanh derivatives:
 accept unaligned arrays

They used aligned AVX loads and stores without first skipping to an aligned
element, so the output layer (which writes to the caller's buffer) and
gradient slices whose size is not a multiple of the SIMD width crashed.
---
 src/activation.c | 44 ++++++++++++++++++++++----------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/src/activation.c b/src/activation.c
index 90effd3..3b0314e 100644
--- a/src/activation.c
+++ b/src/activation.c
@@ -548,8 +548,8 @@ static void tanh_act( const int n, float *y )
     __m256 YMM0, YMM1, YMM2, YMM3;
 
     for (i = 0; i <= ((n)-16); i += 16) {
-        YMM0 = _mm256_load_ps(y + i);
-        YMM1 = _mm256_load_ps(y + i + 8);
+        YMM0 = _mm256_loadu_ps(y + i);
+        YMM1 = _mm256_loadu_ps(y + i + 8);
         YMM0 = _mm256_mul_ps(neg_two, YMM0);
         YMM1 = _mm256_mul_ps(neg_two, YMM1);
         YMM2 = _mm256_add_ps(one, exp256_ps(YMM0));
@@ -558,8 +558,8 @@ static void tanh_act( const int n, float *y )
         YMM3 = _mm256_div_ps(two, YMM3);
         YMM2 = _mm256_add_ps(neg_one, YMM2);
         YMM3 = _mm256_add_ps(neg_one, YMM3);
-        _mm256_store_ps(y + i, YMM2);
-        _mm256_store_ps(y + i + 8, YMM3);
+        _mm256_storeu_ps(y + i, YMM2);
+        _mm256_storeu_ps(y + i + 8, YMM3);
     }
 #endif  /* __AVX2__ */
     for( ; i < n; i++ )
@@ -651,8 +651,8 @@ static void relu_derivative        ( const int n, const float *activation, float
     __m256 YMM0, YMM1, YMM2, YMM3;
 
     for (i = 0; i <= ((n)-16); i += 16) {
-        YMM0 = _mm256_load_ps(activation + i);
-        YMM1 = _mm256_load_ps(activation + i + 8);
+        YMM0 = _mm256_loadu_ps(activation + i);
+        YMM1 = _mm256_loadu_ps(activation + i + 8);
         
         YMM0 = _mm256_cmp_ps(YMM0, zero, _CMP_LE_OS);
         YMM1 = _mm256_cmp_ps(YMM1, zero, _CMP_LE_OS);
@@ -660,11 +660,11 @@ static void relu_derivative        ( const int n, const float *activation, float
         YMM0 = _mm256_blendv_ps( ones, zero, YMM0);
         YMM1 = _mm256_blendv_ps( ones, zero, YMM1);
 
-        YMM2 = _mm256_load_ps(ar + i);
-        YMM3 = _mm256_load_ps(ar + i + 8);
+        YMM2 = _mm256_loadu_ps(ar + i);
+        YMM3 = _mm256_loadu_ps(ar + i + 8);
 
-        _mm256_store_ps( ar + i,     _mm256_mul_ps( YMM0, YMM2) );
-        _mm256_store_ps( ar + i + 8, _mm256_mul_ps( YMM1, YMM3) );
+        _mm256_storeu_ps( ar + i,     _mm256_mul_ps( YMM0, YMM2) );
+        _mm256_storeu_ps( ar + i + 8, _mm256_mul_ps( YMM1, YMM3) );
     }
 #endif /* __AVX__ */
     for(; i < n; i++ )
@@ -681,8 +681,8 @@ static void sigmoid_derivative     ( const int n, const float *activation, float
     __m256 YMM0, YMM1, YMM2, YMM3;
 
     for (i = 0; i <= ((n)-16); i += 16) {
-        YMM0 = _mm256_load_ps(activation + i);
-        YMM1 = _mm256_load_ps(activation + i + 8);
+        YMM0 = _mm256_loadu_ps(activation + i);
+        YMM1 = _mm256_loadu_ps(activation + i + 8);
 
         YMM2 = _mm256_sub_ps( ones, YMM0 );
         YMM3 = _mm256_sub_ps( ones, YMM1 );
@@ -690,11 +690,11 @@ static void sigmoid_derivative     ( const int n, const float *activation, float
         YMM0 = _mm256_mul_ps(YMM0, YMM2);
         YMM1 = _mm256_mul_ps(YMM1, YMM3);
 
-        YMM2 = _mm256_load_ps(ar + i);
-        YMM3 = _mm256_load_ps(ar + i + 8);
+        YMM2 = _mm256_loadu_ps(ar + i);
+        YMM3 = _mm256_loadu_ps(ar + i + 8);
 
-        _mm256_store_ps( ar + i,     _mm256_mul_ps( YMM0, YMM2) );
-        _mm256_store_ps( ar + i + 8, _mm256_mul_ps( YMM1, YMM3) );
+        _mm256_storeu_ps( ar + i,     _mm256_mul_ps( YMM0, YMM2) );
+        _mm256_storeu_ps( ar + i + 8, _mm256_mul_ps( YMM1, YMM3) );
     }
 #endif /* __AVX__ */
     for(; i < n; i++ )
@@ -710,8 +710,8 @@ static void tanh_act_derivative    ( const int n, const float *activation, float
     __m256 YMM0, YMM1, YMM2, YMM3;
 
     for (i = 0; i <= ((n)-16); i += 16) {
-        YMM0 = _mm256_load_ps(activation + i);
-        YMM1 = _mm256_load_ps(activation + i + 8);
+        YMM0 = _mm256_loadu_ps(activation + i);
+        YMM1 = _mm256_loadu_ps(activation + i + 8);
 
         YMM0 = _mm256_mul_ps(YMM0, YMM0);
         YMM1 = _mm256_mul_ps(YMM1, YMM1);
@@ -719,11 +719,11 @@ static void tanh_act_derivative    ( const int n, const float *activation, float
         YMM0 = _mm256_sub_ps(ones, YMM0);
         YMM1 = _mm256_sub_ps(ones, YMM1);
 
-        YMM2 = _mm256_load_ps(ar + i);
-        YMM3 = _mm256_load_ps(ar + i + 8);
+        YMM2 = _mm256_loadu_ps(ar + i);
+        YMM3 = _mm256_loadu_ps(ar + i + 8);
 
-        _mm256_store_ps( ar + i,     _mm256_mul_ps( YMM0, YMM2) );
-        _mm256_store_ps( ar + i + 8, _mm256_mul_ps( YMM1, YMM3) );
+        _mm256_storeu_ps( ar + i,     _mm256_mul_ps( YMM0, YMM2) );
+        _mm256_storeu_ps( ar + i + 8, _mm256_mul_ps( YMM1, YMM3) );
     }
 #endif /* __AVX__ */
     for( ; i < n; i++ )
-- 
2.43.0


From a8039e76365f3bd61d1ffaa459b4fcad943baef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:34 +0000
Subject: [PATCH 04/24] fix: mean_absolute_percentage_error: divide by the
 magnitude of the target

A negative target was replaced by the tiny positive floor 1e-7, in the metric
as well as in the loss gradient.
---
 src/loss.c    | 2 +-
 src/metrics.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/loss.c b/src/loss.c
index 880d253..6a47467 100644
--- a/src/loss.c
+++ b/src/loss.c
@@ -76,7 +76,7 @@ static void mean_absolute_error( unsigned int n, const float *y_pred, const floa
 static void mean_absolute_percentage_error( unsigned int n, const float *y_pred, const float *y_real, float *loss )
 {
     for( unsigned int i = 0; i < n; i++ )
-        loss[i] = (y_pred[i] >= y_real[i] ? 100.0f : -100.0f) / (fmax(y_real[i], 1e-7f) * (float) n);
+        loss[i] = (y_pred[i] >= y_real[i] ? 100.0f : -100.0f) / (fmaxf(fabsf(y_real[i]), 1e-7f) * (float) n);
 }
 
 static void categorical_crossentropy( unsigned int n, const float *y_pred, const float *y_real, float *loss )
diff --git a/src/metrics.c b/src/metrics.c
index d1b286e..b3cbf57 100644
--- a/src/metrics.c
+++ b/src/metrics.c
@@ -87,7 +87,7 @@ static float mean_absolute_percentage_error(const int n, const float *y_pred, co
 {
     float diff = 0.0f;
     for( int i = 0; i < n; i++ )
-        diff += fabsf( (y_real[i] - y_pred[i]) / fmaxf( y_real[i], epsilon ));
+        diff += fabsf( (y_real[i] - y_pred[i]) / fmaxf( fabsf( y_real[i] ), epsilon ));
 
     return 100.0f * diff / (float) n;
 }
-- 
2.43.0


From b2602c6fb5488ea54f33af28d97cd79e3c612d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:45 +0000
Subject: [PATCH 05/24] fix: batch gradient reduction stays inside the caller's
 gradient vector

The OpenMP array reduction covered the parameter count rounded up to a
multiple of 16, while every caller passes an array with exactly
n_parameters elements; the combine step read and wrote past its end.
---
 src/optimizer.c | 15 +--------------
 1 file changed, 1 insertion(+), 14 deletions(-)

diff --git a/src/optimizer.c b/src/optimizer.c
index 4494ebc..3df147a 100644
--- a/src/optimizer.c
+++ b/src/optimizer.c
@@ -65,19 +65,6 @@ void optimizer_calc_batch_gradient( optimizer_t *opt,
     neuralnet_t *nn = opt->nn;
     const unsigned int n_parameters = neuralnet_total_n_parameters( nn );
 
-    /* There is a bug in OpenMP -- if using reduction on an aligned array, there will be threaded
-       copies of the arrays in each thread. These copies will not necesarrily be aligned, but rather
-       follow the previous in memory. Solving this can be done by padding. I've not seen this documented
-       but it seems to work. Hence this padding. */
-#ifdef __AVX__
-#define PADDING_SIZE 16
-    /* Hmmm.... maybe it doesn't work after all? it doesn't work with PADDING_SIZE=32, but
-       it works with PADDING_SIZE=16... why? Is this really a stable solution? */
-    const unsigned int n_param_padding = n_parameters + (PADDING_SIZE - n_parameters % PADDING_SIZE);
-    assert( (n_param_padding % PADDING_SIZE) == 0);
-#else
-    const unsigned int n_param_padding __attribute__((unused))  = n_parameters;
-#endif
     memset( batchgrad, 0, n_parameters * sizeof(float));  /* Clear the batch grad */
 
     const int n_input  = nn->layer[0].n_input;
@@ -85,7 +72,7 @@ void optimizer_calc_batch_gradient( optimizer_t *opt,
 
     const int remaining_samples = (int) n_train_samples - (int) *i;
     const int batchsize = remaining_samples < opt->batchsize ? remaining_samples : opt->batchsize;
-#pragma omp parallel for reduction(+:batchgrad[0:n_param_padding])
+#pragma omp parallel for reduction(+:batchgrad[0:n_parameters])
     for ( int b = 0 ; b < batchsize; b++){
         const int idx = *i + b;
         float SIMD_ALIGN(grad[n_parameters]);
-- 
2.43.0


From 94c2ea5c914eb9c6373668a8e4d528d113a31692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:45 +0000
Subject: [PATCH 06/24] fix: each optimizer allocates its own shuffle pivot

The number of samples the pivot was made for was a function static shared
by all optimizers: a second optimizer trained on a data set of the same
size never got a pivot and dereferenced NULL.
---
 src/optimizer.c | 5 ++---
 src/optimizer.h | 2 ++
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/optimizer.c b/src/optimizer.c
index 3df147a..5c471a7 100644
--- a/src/optimizer.c
+++ b/src/optimizer.c
@@ -15,9 +15,8 @@
 
 static void prepare_shuffle_pivot( optimizer_t *opt, const unsigned n_train_samples )
 {
-    static unsigned int _n_sample = 0;
-    if ( n_train_samples != _n_sample ){
-        _n_sample = n_train_samples;
+    if ( !opt->pivot || n_train_samples != opt->n_pivot ){
+        opt->n_pivot = n_train_samples;
         opt->pivot = realloc( opt->pivot, n_train_samples * sizeof(unsigned int));
         if ( !opt->pivot ){
             fprintf( stderr, "Cannot allocate pivot array.\n");
diff --git a/src/optimizer.h b/src/optimizer.h
index 7de3202..5005cce 100644
--- a/src/optimizer.h
+++ b/src/optimizer.h
@@ -31,6 +31,7 @@ struct _optimizer_t {
     void         (*progress)( int x, int n, const char *fmt, ...);
     metric_func  *metrics;  /* NULL terminated */
     unsigned int *pivot;    /* Don't touch! */
+    unsigned int n_pivot;   /* Don't touch! */
 };
 
 #if defined(__GNUC__)
@@ -68,6 +69,7 @@ DLLEXPORT name ## _t * name ## _new( neuralnet_t *nn, optimizer_properties_t opt
     newopt->opt.metrics    = optconf.metrics;   \
     \
     newopt->opt.pivot      = NULL; /* This will be allocated in the main loop */ \
+    newopt->opt.n_pivot    = 0; \
     \
     __VA_ARGS__ ; \
     optimizer_check_sanity( OPTIMIZER(newopt) ); \
-- 
2.43.0


From 41cb1a16cd6269aec92c768baff17732547ad972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:45 +0000
Subject: [PATCH 07/24] fix: the default metric belongs to its optimizer

The default metric list was a function static shared by all optimizers;
creating an optimizer for a network with another loss silently changed
the metric that the existing ones report.
---
 src/optimizer.c | 8 +++-----
 src/optimizer.h | 1 +
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/optimizer.c b/src/optimizer.c
index 5c471a7..dd9a80d 100644
--- a/src/optimizer.c
+++ b/src/optimizer.c
@@ -48,12 +48,10 @@ void optimizer_check_sanity( optimizer_t * opt)
     assert( opt->batchsize > 0 );
 
     /* If the metrics is set to NULL - add the metric function corresponding to the loss */
-    static metric_func static_metrics[2];
-    static_metrics[0] = get_metric_func( get_loss_name( opt->nn->loss ));
-    static_metrics[1] = NULL;
-
     if( opt->metrics == NULL ){
-        opt->metrics = static_metrics;
+        opt->default_metrics[0] = get_metric_func( get_loss_name( opt->nn->loss ));
+        opt->default_metrics[1] = NULL;
+        opt->metrics = opt->default_metrics;
     }
 }
 
diff --git a/src/optimizer.h b/src/optimizer.h
index 5005cce..9be7dda 100644
--- a/src/optimizer.h
+++ b/src/optimizer.h
@@ -32,6 +32,7 @@ struct _optimizer_t {
     metric_func  *metrics;  /* NULL terminated */
     unsigned int *pivot;    /* Don't touch! */
     unsigned int n_pivot;   /* Don't touch! */
+    metric_func  default_metrics[2]; /* Don't touch! */
 };
 
 #if defined(__GNUC__)
-- 
2.43.0


From 0ea5aa32966aabceb97bc54c1b2690c440f0e096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:33 +0000
Subject: [PATCH 08/24] fix: Adam bias correction is state of the optimizer

The running products of beta_1 and beta_2 were function statics shared by
all Adam optimizers, so every optimizer but the first started with the
bias correction of another one.
---
 src/adam.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/adam.c b/src/adam.c
index be59be0..96cf4f4 100644
--- a/src/adam.c
+++ b/src/adam.c
@@ -25,6 +25,8 @@ struct _adam_t
     /* private stuff - don't touch! */
     float *r;
     float *s;
+    float beta_1_corrected;
+    float beta_2_corrected;
 };
 
 static void adam_optimizer_init( adam_t *adam, adam_properties_t *properties )
@@ -36,6 +38,9 @@ static void adam_optimizer_init( adam_t *adam, adam_properties_t *properties )
     adam->beta_2 = props->beta_2;
     adam->weight_decay = props->weight_decay;
 
+    adam->beta_1_corrected = 1.0f;
+    adam->beta_2_corrected = 1.0f;
+
     const unsigned int n_param = neuralnet_total_n_parameters( OPTIMIZER(adam)->nn );
 
     adam->r   = simd_malloc( n_param * sizeof(float) );
@@ -155,9 +160,6 @@ void adam_run_epoch( optimizer_t *opt,
     neuralnet_t *nn = opt->nn;
     const unsigned int n_parameters = neuralnet_total_n_parameters( nn );
 
-    static float beta_1_corrected = 1.0f;
-    static float beta_2_corrected = 1.0f;
-
     /* One epoch */
     for ( unsigned int i = 0; i < n_train_samples ;  ){
 
@@ -165,8 +167,8 @@ void adam_run_epoch( optimizer_t *opt,
         optimizer_calc_batch_gradient( opt, n_train_samples, train_X, train_Y, &i, g );
         if(opt->progress) opt->progress( i, n_train_samples, "Train: " );
         
-        beta_1_corrected *= adam->beta_1;
-        beta_2_corrected *= adam->beta_2;
+        adam->beta_1_corrected *= adam->beta_1;
+        adam->beta_2_corrected *= adam->beta_2;
 
         #pragma omp parallel sections
         {
@@ -176,7 +178,7 @@ void adam_run_epoch( optimizer_t *opt,
             update_biased_second_moment( n_parameters, adam->r, g, adam->beta_2 );
         }
 
-        compute_update_adam( n_parameters, g, adam->s, adam->r, beta_1_corrected, beta_2_corrected, adam->learning_rate );
+        compute_update_adam( n_parameters, g, adam->s, adam->r, adam->beta_1_corrected, adam->beta_2_corrected, adam->learning_rate );
 
         if( adam->weight_decay > 0.0f ){
             float SIMD_ALIGN(weights[n_parameters]);
-- 
2.43.0


From 7bdec494e77f14454eb2d60cf6aead38ede1af06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:33 +0000
Subject: [PATCH 09/24] fix: early stopping keeps its history in its own object

The best score and the epoch count were function statics shared by all
early stopping objects, so one object's history decided about another.
---
 src/earlystopping.c | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/earlystopping.c b/src/earlystopping.c
index 5ef91b3..5005c51 100644
--- a/src/earlystopping.c
+++ b/src/earlystopping.c
@@ -14,6 +14,9 @@ struct _earlystopping_t
     int   monitor_idx;
     bool  greater_is_better;
     bool  early_stopping_flag;
+    /* private stuff - don't touch! */
+    float best_so_far;
+    int   epochs_since_improvement;
 };
 
 /* Define and set the defaults. OMG, this is ugly but it is general. */
@@ -23,15 +26,14 @@ CALLBACK_DEFINE(earlystopping,
         newcb->monitor_idx         = cfg->monitor_idx;
         newcb->greater_is_better   = cfg->greater_is_better;
         newcb->early_stopping_flag = false;
+        newcb->best_so_far         = cfg->greater_is_better ? -FLT_MAX : FLT_MAX;
+        newcb->epochs_since_improvement = 0;
 );
 
 void earlystopping_callback_run( callback_t *cb, optimizer_t * opt, const float *epoch_results, bool validation_set_given )
 {
     earlystopping_t *es = (earlystopping_t*) cb;
 
-    static float best_so_far = FLT_MAX; 
-    static int epochs_since_improvement = 0;
-
     bool improvement = false;
     /* which index? */
     int n_metrics = optimizer_get_n_metrics( opt );
@@ -42,24 +44,24 @@ void earlystopping_callback_run( callback_t *cb, optimizer_t * opt, const float
 
     float score = epoch_results[idx];
     if (es->greater_is_better) {
-        if ( score > best_so_far || best_so_far == FLT_MAX ){
+        if ( score > es->best_so_far ){
             improvement = true;
-            best_so_far = score;
+            es->best_so_far = score;
         }
     } else {
-        if( score < best_so_far ){
+        if( score < es->best_so_far ){
             improvement = true;
-            best_so_far = score;
+            es->best_so_far = score;
         }
     }
 
     if( improvement ){
-        epochs_since_improvement = 0;
+        es->epochs_since_improvement = 0;
         return;
     }
 
-    epochs_since_improvement++;
-    if ( epochs_since_improvement > es->patience ){
+    es->epochs_since_improvement++;
+    if ( es->epochs_since_improvement > es->patience ){
         es->early_stopping_flag = true;
     }
 
-- 
2.43.0


From f1d2bdbb49d0b798a2d12eb431c6eb75a0c08d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:33 +0000
Subject: [PATCH 10/24] fix: each model checkpoint remembers its own best score

The best score was a function static shared by all checkpoint objects.
---
 src/modelcheckpoint.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/modelcheckpoint.c b/src/modelcheckpoint.c
index 7b470bf..cbd12b7 100644
--- a/src/modelcheckpoint.c
+++ b/src/modelcheckpoint.c
@@ -18,6 +18,8 @@ struct _modelcheckpoint_t
     int monitor_idx;
     bool greater_is_better;
     bool verbose;
+    /* private stuff - don't touch! */
+    float best_so_far;
 };
 
 /* Define and set the defaults. OMG, this is ugly but it is general. */
@@ -27,14 +29,13 @@ CALLBACK_DEFINE(modelcheckpoint,
         newcb->monitor_idx           = cfg->monitor_idx;
         newcb->greater_is_better     = cfg->greater_is_better;
         newcb->verbose               = cfg->verbose;
+        newcb->best_so_far           = cfg->greater_is_better ? -FLT_MAX : FLT_MAX;
 );
 
 void modelcheckpoint_callback_run( callback_t *cb, optimizer_t * opt, const float *epoch_results, bool validation_set_given )
 {
     modelcheckpoint_t *mcp = (modelcheckpoint_t*) cb;
 
-    static float best_so_far = FLT_MAX; /* This will fail for greater_is_better */
-
     bool do_save = false;
     /* which index? */
     int n_metrics = optimizer_get_n_metrics( opt );
@@ -45,18 +46,18 @@ void modelcheckpoint_callback_run( callback_t *cb, optimizer_t * opt, const floa
 
     float score = epoch_results[idx];
     if (mcp->greater_is_better) {
-        if ( score > best_so_far || best_so_far == FLT_MAX ){
+        if ( score > mcp->best_so_far ){
             if( mcp->verbose )  /* BUG: This gives bullshit the first time */
-                printf("Improved from %.4e to %.4e (Saving checkpoint)\n", best_so_far, score );
+                printf("Improved from %.4e to %.4e (Saving checkpoint)\n", mcp->best_so_far, score );
             do_save = true;
-            best_so_far = score;
+            mcp->best_so_far = score;
         }
     } else {
-        if( score < best_so_far ){
+        if( score < mcp->best_so_far ){
             if( mcp->verbose )
-                printf("Improved from %.4e to %.4e (Saving checkpoint)\n", best_so_far, score );
+                printf("Improved from %.4e to %.4e (Saving checkpoint)\n", mcp->best_so_far, score );
             do_save = true;
-            best_so_far = score;
+            mcp->best_so_far = score;
         }
     }
 
-- 
2.43.0


From 3c28b6462de6283f07a50a092a2bcfcb45436518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:33 +0000
Subject: [PATCH 11/24] fix: checkpoint file name is not a format string

A file name containing a percent sign made neuralnet_save read arguments
that were never passed.
---
 src/modelcheckpoint.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modelcheckpoint.c b/src/modelcheckpoint.c
index cbd12b7..ea87d81 100644
--- a/src/modelcheckpoint.c
+++ b/src/modelcheckpoint.c
@@ -62,7 +62,7 @@ void modelcheckpoint_callback_run( callback_t *cb, optimizer_t * opt, const floa
     }
 
     if( do_save )
-        neuralnet_save( opt->nn, mcp->filename ? mcp->filename : "checkpoint.npz");
+        neuralnet_save( opt->nn, "%s", mcp->filename ? mcp->filename : "checkpoint.npz");
     return;
 }
 
-- 
2.43.0


From b1ea1304de31a8714b67f5218272241d3d48d0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:27 +0000
Subject: [PATCH 12/24] fix: npy header: full size_t dimensions, total size
 always a multiple of 64

---
 npy_array/npy_array.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/npy_array/npy_array.c b/npy_array/npy_array.c
index b8f3cf9..420c026 100644
--- a/npy_array/npy_array.c
+++ b/npy_array/npy_array.c
@@ -97,7 +97,7 @@ size_t npy_array_get_header( const npy_array_t *m,  char *buf )
     char *ptr = shape;
 
     for( int i = 0; i < m->ndim; i++)
-        ptr += sprintf(ptr, "%d,", (int) m->shape[i]);
+        ptr += sprintf(ptr, "%zu,", m->shape[i]);
     assert( ptr - shape < NPY_ARRAY_SHAPE_BUFSIZE );
 
     /* Potential bug? There are some additional whitespaces after the dictionaries saved from
@@ -111,7 +111,8 @@ size_t npy_array_get_header( const npy_array_t *m,  char *buf )
        ... which sounds smart enough for me, and with some reverse engineering it looks like HEADER_LEN is 108.
 
      */
-#define HEADER_LEN 108
+#define HEADER_MIN_TOTAL 128
+#define HEADER_ALIGN 64
     /* WARNING: This code looks inocent and simple, but it was really a struggle. Do not touch unless you like pain! */
     size_t len = sprintf(dict, "{'descr': '%c%c%zu', 'fortran_order': %s, 'shape': (%s), }",
             _guess_endianness( m ),
@@ -120,8 +121,11 @@ size_t npy_array_get_header( const npy_array_t *m,  char *buf )
             m->fortran_order ? "True": "False",
             shape );
 
-    assert( len < HEADER_LEN ); /* FIXME: This can go wrong for really big arrays with a lot of dimensions */
-    len += sprintf( dict + len, "%*s\n", (int) (HEADER_LEN - len + NPY_ARRAY_PREHEADER_LENGTH - 1), " " );
+    /* Everything before the data, rounded up such that it is divisible by 64 */
+    size_t total = (NPY_ARRAY_PREHEADER_LENGTH + len + 1 + HEADER_ALIGN - 1) / HEADER_ALIGN * HEADER_ALIGN;
+    if( total < HEADER_MIN_TOTAL )
+        total = HEADER_MIN_TOTAL;
+    len += sprintf( dict + len, "%*s\n", (int) (total - NPY_ARRAY_PREHEADER_LENGTH - len - 1), "" );
 
     const uint16_t _len = (uint16_t) (len);
     memcpy( p, &_len, sizeof(uint16_t));
-- 
2.43.0


From d5597a360651f74ac419c1c50ac2c08edcda7317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:40 +0000
Subject: [PATCH 13/24] fix: npy reader: refuse malformed, short and oversized
 files, zero dimensions, whole mapping released

---
 npy_array/npy_array.c | 82 +++++++++++++++++++++++++++----------------
 npy_array/npy_array.h |  1 +
 2 files changed, 52 insertions(+), 31 deletions(-)

diff --git a/npy_array/npy_array.c b/npy_array/npy_array.c
index 420c026..6551b27 100644
--- a/npy_array/npy_array.c
+++ b/npy_array/npy_array.c
@@ -133,14 +133,15 @@ size_t npy_array_get_header( const npy_array_t *m,  char *buf )
     memcpy( p, dict, len);
 
     return len + NPY_ARRAY_PREHEADER_LENGTH;
-#undef HEADER_LEN
+#undef HEADER_MIN_TOTAL
+#undef HEADER_ALIGN
 }
 
 size_t npy_array_calculate_datasize( const npy_array_t *m )
 {
     size_t n_elements = 1;
     int idx = 0;
-    while ( m->shape[ idx ] > 0 && (idx < m->ndim) )
+    while ( idx < m->ndim )
         n_elements *= m->shape[ idx++ ];
     return n_elements * m->elem_size;
 }
@@ -183,8 +184,8 @@ npy_array_t * _read_matrix( void *fp, reader_func read_func )
 
     /* FIXME! This may fail for version 2 and it may also fail on big endian systems.... */
     uint16_t header_length = 0;
-    header_length |= fixed_header[NPY_ARRAY_HEADER_LENGTH_LOW_IDX];
-    header_length |= fixed_header[NPY_ARRAY_HEADER_LENGTH_HIGH_IDX] << 8;   /* Is a byte always 8 bit? */
+    header_length |= (unsigned char) fixed_header[NPY_ARRAY_HEADER_LENGTH_LOW_IDX];
+    header_length |= (unsigned char) fixed_header[NPY_ARRAY_HEADER_LENGTH_HIGH_IDX] << 8;   /* Is a byte always 8 bit? */
     
     char header[header_length + 1];
     chk = read_func( fp, header, header_length );
@@ -204,7 +205,10 @@ npy_array_t * _read_matrix( void *fp, reader_func read_func )
     }
 
     char *descr   = find_header_item("'descr': '", header);
-    assert(descr);
+    if( !descr || descr[0] == '\0' || descr[1] == '\0' ){
+        fprintf(stderr, "Cannot find the type description in the header.\n");
+        goto header_error;
+    }
     if ( strchr("<>|", descr[0] ) ){
         m->endianness = descr[0];
         if( descr[0] != '|' && ( descr[0] != endianness())){
@@ -218,12 +222,19 @@ npy_array_t * _read_matrix( void *fp, reader_func read_func )
     m->typechar = descr[1];
 
     /* FIXME: Check the **endptr (second argument which is still NULL here)*/
-    m->elem_size = (size_t) strtoll( &descr[2], NULL, 10);
-    assert( m->elem_size > 0 );
+    long long elem_size = strtoll( &descr[2], NULL, 10);
+    if( elem_size <= 0 ){
+        fprintf(stderr, "Bad element size in the header.\n");
+        goto header_error;
+    }
+    m->elem_size = (size_t) elem_size;
 
     /* FIXME: This only works if there is one and only one leading spaces. */
     char *fortran = find_header_item("'fortran_order': ", header);
-    assert( fortran );
+    if( !fortran ){
+        fprintf(stderr, "Cannot find the order in the header.\n");
+        goto header_error;
+    }
 
     if(strncmp(fortran, "True", 4) == 0 )
         m->fortran_order = true;
@@ -234,48 +245,65 @@ npy_array_t * _read_matrix( void *fp, reader_func read_func )
 
     /* FIXME: This only works if there is one and only one leading spaces. */
     char *shape   = find_header_item("'shape': ", header);
-    assert(shape);
+    if( !shape ){
+        fprintf(stderr, "Cannot find the shape in the header.\n");
+        goto header_error;
+    }
+    size_t datasize = m->elem_size;   /* number of bytes in all the elements */
     while (*shape != ')' ) {
-        if( !isdigit( (int) *shape ) ){
+        if( *shape == '\0' || ( isdigit( (unsigned char) *shape ) && m->ndim == NPY_ARRAY_MAX_DIMENSIONS )){
+            fprintf(stderr, "Bad shape in the header.\n");
+            goto header_error;
+        }
+        if( !isdigit( (unsigned char) *shape ) ){
             shape++;
             continue;
         }
-        m->shape[m->ndim] = strtol( shape, &shape, 10);
+        size_t dim = (size_t) strtoull( shape, &shape, 10);
+        if( dim > 0 && datasize > PTRDIFF_MAX / dim ){
+            fprintf(stderr, "The array is too big.\n");
+            goto header_error;
+        }
+        datasize *= dim;
+        m->shape[m->ndim] = dim;
         m->ndim++;
-        assert( m->ndim < NPY_ARRAY_MAX_DIMENSIONS );
     }
 
-    size_t n_elements = 1;
-    int idx = 0;
-    while ( m->shape[ idx ] > 0 )
-        n_elements *= m->shape[ idx++ ];
-
 #if VERBOSE
-    printf("Number of elements: %llu\n", (unsigned long long) n_elements );
+    printf("Number of bytes: %llu\n", (unsigned long long) datasize );
 #endif
     m->map_addr = NULL;
     if( read_func == read_mapped ){
         map_handler_t *mh = (map_handler_t*) fp;
+        if( datasize > mh->length - (size_t) (mh->current_pos - mh->start_pos) ){
+            fprintf(stderr, "Could not read all data.\n");
+            goto header_error;
+        }
         m->data = mh->current_pos;
         m->map_addr = mh->start_pos;
+        m->map_length = mh->length;
         return m;
     }
 
-    m->data = malloc( n_elements * m->elem_size );
+    m->data = malloc( datasize > 0 ? datasize : 1 );
     if ( !m->data ){
         fprintf(stderr, "Cannot allocate memory for matrix data.\n");
         free( m );
         return NULL;
     }
 
-    chk = read_func( fp, m->data, m->elem_size * n_elements ); /* Can the multiplication overflow? */ 
-    if( chk != m->elem_size * n_elements){
+    chk = read_func( fp, m->data, datasize );
+    if( chk != datasize ){
         fprintf(stderr, "Could not read all data.\n");
         free( m->data );
         free( m );
         return NULL;
     }
     return m;
+
+header_error:
+    free( m );
+    return NULL;
 }
 
 npy_array_t * npy_array_load( const char *filename )
@@ -303,7 +331,7 @@ static int64_t read_mapped( void *map, void *buffer, uint64_t nbytes )
     size_t bytes_to_read = bytes_left > nbytes ? nbytes : bytes_left;
     memcpy( buffer, mh->current_pos, bytes_to_read );
     mh->current_pos += bytes_to_read;
-    return (int64_t) nbytes;
+    return (int64_t) bytes_to_read;
 }
 
 npy_array_t * npy_array_mmap( const char *filename )
@@ -387,15 +415,7 @@ void npy_array_free( npy_array_t *m )
     }
 
     if( m->map_addr ){
-        /* We need the length of the data mapped. We are mapping the whole file, so we have to
-           recalculate the size.  */
-        uint16_t header_length = 0;
-        char *preheader = m->map_addr;
-        header_length |= preheader[NPY_ARRAY_HEADER_LENGTH_LOW_IDX];
-        header_length |= preheader[NPY_ARRAY_HEADER_LENGTH_HIGH_IDX] << 8;
-
-        size_t len = NPY_ARRAY_PREHEADER_LENGTH + header_length + npy_array_calculate_datasize(m);
-        munmap( m->map_addr, len );
+        munmap( m->map_addr, m->map_length );
     } else
         free( m->data );
 
diff --git a/npy_array/npy_array.h b/npy_array/npy_array.h
index 3c02e01..93a57ef 100644
--- a/npy_array/npy_array.h
+++ b/npy_array/npy_array.h
@@ -55,6 +55,7 @@ typedef struct _npy_array_t {
     bool              fortran_order;
     /* Consider map_addr as a private member. Do modify this pointer! Used for unmap() */
     void             *map_addr;      /* pointer to the map if array is mmap()'ed -- else NULL */
+    size_t            map_length;    /* number of bytes mapped. (private as well) */
 } npy_array_t;
 
 
-- 
2.43.0


From 2dd76a8f76633edf93d791099abee70af605c92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:10 +0000
Subject: [PATCH 14/24] fix: npy archive: member names are not format strings,
 over-long names are kept unnamed instead of aborting

---
 npy_array/npy_array_list.c | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/npy_array/npy_array_list.c b/npy_array/npy_array_list.c
index 73663fa..a2be951 100644
--- a/npy_array/npy_array_list.c
+++ b/npy_array/npy_array_list.c
@@ -76,20 +76,19 @@ static char * _va_args_filename( const char *filename, va_list ap1 )
      
     va_copy( ap2, ap1); 
     len = vsnprintf( NULL, 0, filename, ap1 );
-    va_end( ap1 );
 
-    if( len > MAX_FILENAME_LEN ){
+    if( len < 0 || len > MAX_FILENAME_LEN ){
         /* If someone is trying to cook up a special filename that can contain executable code, I think it is wise
            to limit the length of the filename */
         fprintf( stderr, "Warning: Cannot save numpy array. Your filename is too long."
                 " Please limit the filename to %d characters.\n", MAX_FILENAME_LEN );
+        va_end( ap2 );
         return NULL;
     }
 
     char *real_filename = malloc( (len+1) * sizeof(char));
-    assert( real_filename );
-
-    vsprintf( real_filename, filename, ap2 );
+    if( real_filename )
+        vsprintf( real_filename, filename, ap2 );
     va_end( ap2 );
 
     return real_filename;
@@ -124,7 +123,6 @@ npy_array_list_t * npy_array_list_ ##oper ( npy_array_list_t *list, npy_array_t
     va_list ap1; \
     va_start( ap1, filename ); \
     new_list->filename = _va_args_filename( filename, ap1 ); \
-    assert( new_list->filename ); \
     va_end( ap1 ); \
 \
     return _list_ ##oper ( list, new_list ); \
@@ -220,7 +218,7 @@ npy_array_list_t * npy_array_list_load( const char *filename )
             fprintf(stderr, "Warning: Cannot read matrix.\n");
             continue;
         }
-        list = npy_array_list_append( list, arr, zip_get_name( zip, i, 0 ));
+        list = npy_array_list_append( list, arr, "%s", zip_get_name( zip, i, 0 ));
     }
 
     zip_close(zip);
-- 
2.43.0


From 4c88263413f07bbbe70781ba5000f94e3c0556c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:45 +0000
Subject: [PATCH 15/24] fix: npy_array_list_free: long lists do not exhaust the
 stack

---
 npy_array/npy_array_list.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/npy_array/npy_array_list.c b/npy_array/npy_array_list.c
index a2be951..c0c2dcb 100644
--- a/npy_array/npy_array_list.c
+++ b/npy_array/npy_array_list.c
@@ -58,15 +58,15 @@ static npy_array_list_t * npy_array_list_new()
 
 void npy_array_list_free( npy_array_list_t *list )
 {
-    if( !list )
-        return;
-    if( list->array )
-        npy_array_free( list->array );
-    if( list->filename )
-        free( list->filename );
-    if( list->next )
-        npy_array_list_free( list->next );
-    free( list );
+    while( list ){
+        npy_array_list_t *next = list->next;
+        if( list->array )
+            npy_array_free( list->array );
+        if( list->filename )
+            free( list->filename );
+        free( list );
+        list = next;
+    }
 }
 
 static char * _va_args_filename( const char *filename, va_list ap1 )
-- 
2.43.0


From b9ba352f0c0e9f775bf6d336af4a1dc98b48640d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:16 +0000
Subject: [PATCH 16/24] fix: npy archive: arrays that could not be written are
 not counted as written

---
 npy_array/npy_array_list.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/npy_array/npy_array_list.c b/npy_array/npy_array_list.c
index c0c2dcb..abc2f51 100644
--- a/npy_array/npy_array_list.c
+++ b/npy_array/npy_array_list.c
@@ -153,7 +153,10 @@ int npy_array_list_save_compressed( const char *filename, npy_array_list_t *arra
 
     /* FIXME: Better test */
     zip_t *zip = zip_open( filename, ZIP_CREATE | ZIP_TRUNCATE, NULL );
-    assert( zip );
+    if( !zip ){
+        fprintf(stderr, "cannot zip_open file: %s\n", filename );
+        return 0;
+    }
 
     int n = 0;
     for( npy_array_list_t *iter = array_list; iter; iter = iter->next ){
@@ -182,6 +185,11 @@ int npy_array_list_save_compressed( const char *filename, npy_array_list_t *arra
         assert(s); 
 
         int idx = zip_file_add( zip, iter->filename, s, ZIP_FL_ENC_UTF_8 );
+        if( idx < 0 ){   /* e.g. two arrays with the same name */
+            fprintf( stderr, "Warning: Cannot add '%s': %s\n", iter->filename, zip_strerror( zip ));
+            zip_source_free( s );
+            continue;
+        }
         if( idx != n )
             fprintf( stderr, "Warning: Index and counter mismatch.");
 
@@ -192,6 +200,8 @@ int npy_array_list_save_compressed( const char *filename, npy_array_list_t *arra
     if ( zip_close( zip ) < 0 ){
         fprintf(stderr, "What? no close?\n");
         fprintf(stderr, "Error: %s\n", zip_strerror( zip ));
+        zip_discard( zip );   /* nothing is written */
+        return 0;
     }
     return n;
 }
-- 
2.43.0


From 3f304b391b5b55ac3d70305b934d66a36286242e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:57 +0000
Subject: [PATCH 17/24] fix: dynamically loaded activation: any symbol length,
 no function from a closed library

---
 src/activation.c | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/activation.c b/src/activation.c
index 3b0314e..9d6bc34 100644
--- a/src/activation.c
+++ b/src/activation.c
@@ -123,22 +123,30 @@ static activation_func get_activation_func_dynamic( const char *name )
         return NULL;
     }
     activation_func retfunc = dlsym( handle, symbol );
-    char derivative_symbol[256];
-    sprintf(derivative_symbol, "%s_derivative", symbol );
-    free( file_and_symbol_name );
     char * error_message = dlerror();
     if( error_message )
     {
         fprintf( stderr, "dlsym(): %s\n", error_message );
+        free( file_and_symbol_name );
         dlclose( handle );
         return NULL;
     }
+    char *derivative_symbol = malloc( strlen( symbol ) + sizeof( "_derivative" ));
+    if ( !derivative_symbol ){
+        perror("Cannot allocate memory for function name.\n" );
+        free( file_and_symbol_name );
+        dlclose( handle );
+        return NULL;
+    }
+    sprintf(derivative_symbol, "%s_derivative", symbol );
+    free( file_and_symbol_name );
 
     activation_record_t *rec = malloc( sizeof(activation_record_t) );
     if ( !rec ){
         perror( "Cannot allocate memory for dynamic loaded activation function record.\n" );
+        free( derivative_symbol );
         dlclose( handle );
-        return retfunc;
+        return NULL;   /* the function is gone when the library is closed */
     }
 
     /* Need to strdup again ... (Or maybe I can reuse if I re-insert the @ ?) */
@@ -146,12 +154,15 @@ static activation_func get_activation_func_dynamic( const char *name )
     rec->activation_name = malloc( len );
     if ( !rec->activation_name ){
         perror("Cannot allocate memory for dynamic loaded activation function name.\n" );
+        free( rec );
+        free( derivative_symbol );
         dlclose( handle );
-        return retfunc;
+        return NULL;   /* the function is gone when the library is closed */
     }
     memcpy( rec->activation_name, name, len);
 
     rec->deriv_ptr = dlsym( handle, derivative_symbol);
+    free( derivative_symbol );
     error_message = dlerror();
     if( error_message )
     {
-- 
2.43.0


From 979c7515b3ece9bec46c17a9e0d79adeb57c4e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:57 +0000
Subject: [PATCH 18/24] fix: neuralnet_create: clean up properly when memory
 runs out, no int overflow in the weight size

---
 src/neuralnet.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/neuralnet.c b/src/neuralnet.c
index 0106850..db20d9f 100644
--- a/src/neuralnet.c
+++ b/src/neuralnet.c
@@ -74,7 +74,7 @@ static bool _weights_memory_allocate( neuralnet_t *nn )
     }
 
     for ( int i = 0; i < nn->n_layers; i++ ){
-        if (NULL == (nn->layer[i].weight = simd_malloc( nn->layer[i].n_input * nn->layer[i].n_output * sizeof( float ))))
+        if (NULL == (nn->layer[i].weight = simd_malloc( sizeof( float ) * nn->layer[i].n_input * nn->layer[i].n_output )))
             goto weight_alloc_error;
     }
 
@@ -657,6 +657,8 @@ neuralnet_t * neuralnet_create( const int n_layers, int sizes[], char *activatio
     for( int i = 0; i < nn->n_layers; i++ ){
         nn->layer[i].n_input  = sizes[i];
         nn->layer[i].n_output = sizes[i+1];
+        nn->layer[i].weight   = NULL;
+        nn->layer[i].bias     = NULL;
     }
 
     if( !_weights_memory_allocate( nn )){
-- 
2.43.0


From f5afacc1d7e3754006d20f56484c1a956b832b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:57 +0000
Subject: [PATCH 19/24] fix: random_normal: reject the origin, which gives NaN

---
 src/neuralnet.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/neuralnet.c b/src/neuralnet.c
index db20d9f..6c2f000 100644
--- a/src/neuralnet.c
+++ b/src/neuralnet.c
@@ -708,7 +708,7 @@ static float random_normal()
             v = random_uniform();  /* from -1 to +1 */
 
             S = u*u + v*v;
-        } while (S >= 1.0f);
+        } while (S >= 1.0f || S == 0.0f);
 
         fac = sqrtf( -2.0f * logf(S) / S );
         Z = u * fac;
-- 
2.43.0


From bad1ab57127e391b6ee2e891ed4f8c01b33f44b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:10 +0000
Subject: [PATCH 20/24] fix: neuralnet_load: refuse files whose arrays do not
 describe a network

---
 src/neuralnet.c | 77 ++++++++++++++++++++++++++++++++++---------------
 1 file changed, 53 insertions(+), 24 deletions(-)

diff --git a/src/neuralnet.c b/src/neuralnet.c
index 6c2f000..e74ff86 100644
--- a/src/neuralnet.c
+++ b/src/neuralnet.c
@@ -19,6 +19,7 @@
 #include <stdbool.h>
 #include <math.h>
 #include <assert.h>
+#include <limits.h>
 
 #if defined(VERBOSE) 
 static void neuralnet_dump( const neuralnet_t *nn )
@@ -95,9 +96,12 @@ weight_alloc_error:
 static char ** _activation_names_from_npy( npy_array_t *m )
 {
     char ** ret = calloc( m->shape[0], sizeof( char* ));
-    assert( ret );
+    if( !ret ) return NULL;
     ret[0] = calloc( m->shape[0] * (m->elem_size + 1), sizeof(char) );  /* sizeof(char) is always 1! */
-    assert( ret[0] );
+    if( !ret[0] ){
+        free( ret );
+        return NULL;
+    }
 
     for( unsigned int i = 1; i < m->shape[0]; i++ )
         ret[i] = ret[0] + i * (m->elem_size + 1);
@@ -108,6 +112,35 @@ static char ** _activation_names_from_npy( npy_array_t *m )
     return ret;
 }
 
+/* Checks that the arrays of a file describe one layer after the other. There should be one weight
+   and one bias array for each layer, and a name of an activation function for each layer. */
+static bool _arrays_consistent( int n_arrays, npy_array_t **arrays, const npy_array_t *names )
+{
+    const int one = 1;
+    const char foreign_endian = *(const char*) &one == 1 ? '>' : '<';
+
+    if( n_arrays < 2 || n_arrays % 2 != 0 || !names )
+        return false;
+    if( names->ndim != 1 || names->shape[0] != (size_t) n_arrays / 2 )
+        return false;
+    for( int i = 0; i < n_arrays; i++ )
+        if( arrays[i]->elem_size != sizeof(float) || arrays[i]->fortran_order || arrays[i]->endianness == foreign_endian )
+            return false;
+    for( int i = 0; i < n_arrays; i += 2 ){
+        const npy_array_t *weights = arrays[i];
+        const npy_array_t *bias    = arrays[i+1];
+        if( weights->ndim != 2 || bias->ndim != 1 )
+            return false;
+        if( weights->shape[0] < 1 || weights->shape[0] > INT_MAX || weights->shape[1] < 1 || weights->shape[1] > INT_MAX )
+            return false;
+        if( bias->shape[0] != weights->shape[1] )
+            return false;
+        if( i > 0 && weights->shape[0] != arrays[i-2]->shape[1] )
+            return false;
+    }
+    return true;
+}
+
 /**
   @brief Create a new neural network based on specifications in file.
   @param filename Filename to neural network file.
@@ -120,6 +153,7 @@ neuralnet_t *neuralnet_load( const char *filename)
     char             **activation_funcs    = NULL;
     int                wb_idx              = 0;
     neuralnet_t       *nn                  = NULL;
+    npy_array_t       *names               = NULL;
 
     /* Start with copying data from the 'npy' file into an other array for weights and biases,
        and the activation function names into another array */
@@ -141,17 +175,30 @@ neuralnet_t *neuralnet_load( const char *filename)
         npy_array_t *m = iter->array;
         if( m->typechar == 'f' )
             weights_and_biases[wb_idx++] = m;
-        else if( m->typechar == 'S' )
-            activation_funcs = _activation_names_from_npy( m );
+        else if( m->typechar == 'S' && !names )
+            names = m;
         else {
             fprintf( stderr, "Element type of numpy array is neither 'float32' or ascii charaters. Cannot open file '%s'.\n", filename );
             goto load_error;
         }
     }
 
-    assert( (wb_idx % 2) == 0 );  /* There should be one weight and one bias npy arrays for each layer. This should hence be even. */
+    if( !_arrays_consistent( wb_idx, weights_and_biases, names )){
+        fprintf( stderr, "The arrays in file '%s' do not describe a neural network.\n", filename );
+        goto load_error;
+    }
 
     int n_layers = wb_idx / 2;
+    if( NULL == (activation_funcs = _activation_names_from_npy( names ))){
+        fprintf( stderr, "Cannot allocate memory for the names of the activation functions.\n" );
+        goto load_error;
+    }
+    for( int i = 0; i < n_layers; i++ )
+        if( !get_activation_func( activation_funcs[i] )){
+            fprintf( stderr, "Unknown activation function '%s' in file '%s'.\n", activation_funcs[i], filename );
+            goto load_error;
+        }
+
     {  /* An added scope to please 'goto' */
         int sizearray[ n_layers + 1 ];
         sizearray[0] = weights_and_biases[0]->shape[0];
@@ -173,22 +220,6 @@ neuralnet_t *neuralnet_load( const char *filename)
         npy_array_t *weights   = weights_and_biases[i*2];
         npy_array_t *bias      = weights_and_biases[i*2+1];
 
-        /* Some basic checks, but just warnings. */
-        if( weights->ndim != 2 )
-            fprintf(stderr, "WARNING: weight npy array not 2-dimensional in layer %d (It's %dD!)\n", i, weights->ndim);
-        if( bias->ndim != 1 )
-            fprintf(stderr, "WARNING: bias npy array not 1-dimensional in layer %d (It's %dD!)\n", i, bias->ndim);
-        if( weights->shape[1] != bias->shape[0] )
-            fprintf(stderr, "WARNING: bias size does not match weight size in layer %d. Weight: (%ld,%ld) Bias (%ld)\n",
-                    i, weights->shape[0], weights->shape[1], bias->shape[0]);
-        if( i > 0 ){
-            if( weights->shape[0] != weights_and_biases[(i-1)*2]->shape[1] ){
-                fprintf( stderr, "WARNING: weight size mismatch between layer %d and %d.", (i-1), i );
-                fprintf( stderr, "* Prev layer output size: %ld\n", weights_and_biases[(i-1)*2]->shape[1] ); 
-                fprintf( stderr, "* This layer  input size: %ld\n", weights->shape[0] ); 
-            }
-        }
-
         memcpy( nn->layer[i].weight, weights->data, weights->shape[0] * weights->shape[1] * sizeof(float));
         /* Debug 
         print_matrix( weights->shape[0], weights->shape[1], (float*) weights->data );
@@ -197,9 +228,7 @@ neuralnet_t *neuralnet_load( const char *filename)
         memset( nn->layer[i].bias, 0,   nn->layer[i].n_output * sizeof(float));
         memcpy( nn->layer[i].bias, bias->data, bias->shape[0] * sizeof(float));
         /* FIXME in far future: If the matrices are fortran order, reorganize them. Hmmm ... maybe
-         * such feature belong in npy_array? */ 
-        assert( weights->fortran_order == false );
-        assert( bias->fortran_order == false );
+         * such feature belong in npy_array? (They are refused by now.) */
     }
 
 load_error:
-- 
2.43.0


From 24266fb0bc9ff3eada1a19e4956683a6c44628f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:30 +0000
Subject: [PATCH 21/24] fix: logger: records of any length, log files of any
 content

---
 src/logger.c    | 72 ++++++++++++++++++++++++-------------------------
 src/neuralnet.c |  3 ++-
 2 files changed, 38 insertions(+), 37 deletions(-)

diff --git a/src/logger.c b/src/logger.c
index 07fb869..e2554d5 100644
--- a/src/logger.c
+++ b/src/logger.c
@@ -7,7 +7,6 @@
 
 #include <stdio.h>
 #include <time.h>
-#include <assert.h>
 #include <string.h>
 #include <unistd.h>
 
@@ -23,7 +22,6 @@ struct _logger_t
 static int find_last_epoch_from_logfile( logger_t *logger );
 
 #define EPOCH_STR "Epoch"
-#define MAX_BUFFER 255
 /* Define and set the defaults. OMG, this is ugly but it is general. */
 CALLBACK_DEFINE(logger,
         logger_config *cfg = (logger_config*) config;
@@ -43,67 +41,69 @@ static int find_last_epoch_from_logfile( logger_t *logger )
         FILE *fp = fopen( logger->filename, "r");
         if(!fp)
             return logger->epoch_count; /* Fail silently should be OK */
-        char buf[MAX_BUFFER + 1];
-        fseek( fp, -MAX_BUFFER, SEEK_END );
-        size_t len=fread( buf, 1, MAX_BUFFER, fp );
-        fclose(fp);  /* Hurry up and close it */
-        buf[len] = '\0';
-        if( buf[len-1] == '\n' )  /* Dirty trick if the last line is terminated by newline (which it usually is) */
-            buf[len-1] = '\0';
-        char *last_newline = strrchr( buf, '\n' );
-        if ( !last_newline )
-            return logger->epoch_count;
-        char *last_line = last_newline + 1;
-        if( buf[len-1] == '\0' ) /* Fixing up the dirty trick */
-            buf[len-1] = '\n';   /* we are working on a buffer copy anyway so this is not a big deal */
-        char *e_counter = strstr( last_line, EPOCH_STR) + strlen(EPOCH_STR);
-        return atoi( e_counter ) + 1;
+        /* Go through the file and pick the number after the last "Epoch" */
+        static const char pattern[] = EPOCH_STR " ";
+        int last_epoch = -1;
+        int matched = 0;    /* number of characters of the pattern seen */
+        int c;
+        while( (c = getc( fp )) != EOF ){
+            matched = c == pattern[matched] ? matched + 1 : c == pattern[0];
+            if( pattern[matched] == '\0' ){
+                int epoch;
+                if( fscanf( fp, "%9d", &epoch ) == 1 && epoch >= 0 )
+                    last_epoch = epoch;
+                matched = 0;
+            }
+        }
+        fclose(fp);
+        return last_epoch + 1;
     }
     return logger->epoch_count;
 }
 
-void logger_callback_run( callback_t *cb, optimizer_t * opt, const float *epoch_results, bool validation_set_given )
+static void write_record( FILE *fp, const struct tm *timeinfo, int epoch, optimizer_t *opt, const float *epoch_results, bool validation_set_given )
 {
-    logger_t *log = (logger_t*) cb;
-
-    char buffer[MAX_BUFFER + 1];
-    char *ptr = buffer;
-    time_t rawtime;
-    struct tm * timeinfo;
-
-    time ( &rawtime );
-    timeinfo = localtime ( &rawtime );
-
     /* First the time, let's settle for the time of day, there will be other evidence to se the date and year.*/
-    ptr += sprintf ( ptr, "[%02d:%02d:%02d] ",timeinfo->tm_hour, timeinfo->tm_min, timeinfo->tm_sec);
+    fprintf ( fp, "[%02d:%02d:%02d] ",timeinfo->tm_hour, timeinfo->tm_min, timeinfo->tm_sec);
 
     /* Then the epoch count. The count is only stored in log. It is not in the optimizer */
-    ptr += sprintf ( ptr, EPOCH_STR " %3d ", log->epoch_count++ );
+    fprintf ( fp, EPOCH_STR " %3d ", epoch );
 
     /* Now the metric values */
     int n_metrics = optimizer_get_n_metrics( opt ); // * ( 1 + (int)validation_set_given);
     for( int phase = 0; phase <= ((int) validation_set_given); phase++ ){  /* phase 0 -> train error / phase 1: validation error */
         for ( int i = 0; i < n_metrics; i++ ){
-            ptr += sprintf ( ptr, "%s%s: %5.5e ", phase == 1 ? "val_" :"", get_metric_name(opt->metrics[i]),
+            fprintf ( fp, "%s%s: %5.5e ", phase == 1 ? "val_" :"", get_metric_name(opt->metrics[i]),
                     epoch_results[i + (phase * n_metrics)] );
         }
     }
 
-    ptr += sprintf(ptr, "\n" );
-    assert( ptr - buffer < MAX_BUFFER );
+    fprintf(fp, "\n" );
+}
+
+void logger_callback_run( callback_t *cb, optimizer_t * opt, const float *epoch_results, bool validation_set_given )
+{
+    logger_t *log = (logger_t*) cb;
+
+    time_t rawtime;
+    struct tm * timeinfo;
+
+    time ( &rawtime );
+    timeinfo = localtime ( &rawtime );
+
+    int epoch = log->epoch_count++;
 
     /* Print it out */
     if ( !log->no_stdout )
-        fprintf( stdout, "%s", buffer ); 
+        write_record( stdout, timeinfo, epoch, opt, epoch_results, validation_set_given );
 
     FILE *fp = NULL;
     if ( log->filename )
         fp = fopen( log->filename, "a" );
 
     if ( fp ){
-        fprintf( fp, "%s", buffer );
+        write_record( fp, timeinfo, epoch, opt, epoch_results, validation_set_given );
         fclose( fp );
     }
     return;
 }
-
diff --git a/src/neuralnet.c b/src/neuralnet.c
index e74ff86..8a8d056 100644
--- a/src/neuralnet.c
+++ b/src/neuralnet.c
@@ -357,7 +357,8 @@ void neuralnet_save( const neuralnet_t *nn, const char *filename, ... )
     len = vsnprintf( NULL, 0, filename, ap1 );
     va_end( ap1 );
 
-    if( len > _MAX_FILENAME_LEN ){
+    if( len < 0 || len > _MAX_FILENAME_LEN ){
+        va_end( ap2 );
         /* If someone is trying to cook up a special filename that can contain executable code, I think it is wise
            to limit the length of the filename */
         fprintf( stderr, "Warning: Cannot save neural network. Your filename is too long."
-- 
2.43.0


From feb22882d62f46d5658a4723e8d1f54faeed46f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:41 +0000
Subject: [PATCH 22/24] fix: evaluate() must not index the data set with int,
 nor keep all predictions on the stack

The offset i*n_input overflows when the validation set holds more than INT_MAX numbers. In the
BLAS build the predictions of the whole validation set were a variable length array.
---
 src/evaluate.c | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 1515c8e..27c5f43 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -5,6 +5,7 @@
 #include "evaluate.h"
 #include "neuralnet_predict_batch.h"
 #include "simd.h"
+#include <stdlib.h>
 #include <string.h>
 
 #include <omp.h>
@@ -12,9 +13,7 @@
 void evaluate( neuralnet_t *nn, const int n_valid_samples, const float *valid_X, const float *valid_Y,
         metric_func metrics[], float *results )
 {
-#ifndef USE_CBLAS 
     const int n_input  = nn->layer[0].n_input;
-#endif
     const int n_output = nn->layer[nn->n_layers-1].n_output;
 
     metric_func *mf_ptr = metrics;
@@ -26,25 +25,33 @@ void evaluate( neuralnet_t *nn, const int n_valid_samples, const float *valid_X,
     float local_results[n_metrics];
     memset( local_results, 0, n_metrics * sizeof(float));
 #ifdef USE_CBLAS
-    float predictions[ n_output * n_valid_samples ];
-    memset( predictions, 0, n_output * n_valid_samples * sizeof(float));
-    neuralnet_predict_batch( nn, n_valid_samples, valid_X, predictions);
+    /* The validation set can be large, so the predictions do not belong on the stack. If there is
+       no memory for all of them, the samples are predicted one by one. */
+    float *predictions = malloc( sizeof(float) * n_output * n_valid_samples );
+    if( predictions )
+        neuralnet_predict_batch( nn, n_valid_samples, valid_X, predictions);
 #endif
     #pragma omp parallel for reduction(+:local_results[:])
     for ( int i = 0; i < n_valid_samples; i++ ){
 #ifdef USE_CBLAS
-        float *y_pred = predictions + (i*n_output);
+        SIMD_ALIGN(float y_single[n_output]);
+        float *y_pred = predictions ? predictions + (size_t) i * n_output : y_single;
+        if( !predictions )
+            neuralnet_predict( nn, valid_X + (size_t) i * n_input, y_pred );
 #else
         SIMD_ALIGN(float y_pred[n_output]);
-        neuralnet_predict( nn, valid_X + (i*n_input), y_pred );
+        neuralnet_predict( nn, valid_X + (size_t) i * n_input, y_pred );
 #endif
         float *res = local_results;
         for ( int j = 0; j < n_metrics; j++ ){
-            float _error = metrics[j]( n_output, y_pred, valid_Y + (i*n_output));
+            float _error = metrics[j]( n_output, y_pred, valid_Y + (size_t) i * n_output );
             *res++ += _error;
         }
     }
 
+#ifdef USE_CBLAS
+    free( predictions );
+#endif
     float *res = results;
     for ( int i = 0; i < n_metrics; i++ )
         *res++ = local_results[i] / (float) n_valid_samples;
-- 
2.43.0


From 742a5197ef387b5793fae96004821b3bcd2461d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:41 +0000
Subject: [PATCH 23/24] fix: neuralnet_predict_batch() with large batches and
 wide layers

The int offset i*n_inputs overflows for large batches. In the BLAS build the size of the work
memory overflowed as well, and a single sample that does not fit in the work memory made the
function call itself forever.
---
 src/neuralnet_predict_batch.c | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/neuralnet_predict_batch.c b/src/neuralnet_predict_batch.c
index 6b52cc7..fb48474 100644
--- a/src/neuralnet_predict_batch.c
+++ b/src/neuralnet_predict_batch.c
@@ -23,7 +23,7 @@ void neuralnet_predict_batch( const neuralnet_t *nn, const int n_samples, const
     const int n_output = nn->layer[nn->n_layers-1].n_output;
 #pragma omp parallel for
     for ( int i = 0; i < n_samples; i++ )
-        neuralnet_predict( nn, inputs + i*n_inputs, output + i*n_output);
+        neuralnet_predict( nn, inputs + (size_t) i * n_inputs, output + (size_t) i * n_output);
 }
 #else
 /* This number depends on your system - how much memory do you want to stack allocate?
@@ -38,27 +38,31 @@ void neuralnet_predict_batch( const neuralnet_t *nn, const int n_samples, const
  * and recurse like a divide-and-conquere scheme.
  */
 #ifndef N_STACK_ALLOC_FLOATS
-#define N_STACK_ALLOC_FLOATS 64 * 1024
+#define N_STACK_ALLOC_FLOATS (64 * 1024)
 #endif
 
 void neuralnet_predict_batch( const neuralnet_t *nn, const int n_samples, const float *inputs, float *output )
 {
     /* Make some work memory on stack. First calculate how much we need. */
-    int workmem_sz = 0;
+    size_t sample_sz = 0;  /* floats per sample */
     for( int i = 0; i < nn->n_layers; i++)
-        workmem_sz += nn->layer[i].n_output;
-    workmem_sz *= n_samples;  /* This size is also in floats */
+        sample_sz += nn->layer[i].n_output;
 
 #if 0
     /* Let's see how often this this fails. */
-    assert( N_STACK_ALLOC_FLOATS >= workmem_sz && "Stack size limit reached - "
+    assert( N_STACK_ALLOC_FLOATS >= sample_sz * n_samples && "Stack size limit reached - "
             "either recompile with a higher limit find another way to handle work memory" );
 #endif
 
-    if( N_STACK_ALLOC_FLOATS < workmem_sz ){
-        int half = n_samples >> 1;
-        const int n_inputs = nn->layer[0].n_input;
-        const int n_output = nn->layer[nn->n_layers-1].n_output;
+    /* (The product of sample_sz and n_samples may overflow, so compare without it.) */
+    if( n_samples > 0 && sample_sz > (size_t) N_STACK_ALLOC_FLOATS / n_samples ){
+        if( n_samples == 1 ){  /* This can not be split further. */
+            neuralnet_predict( nn, inputs, output );
+            return;
+        }
+        const int half = n_samples >> 1;
+        const size_t n_inputs = nn->layer[0].n_input;
+        const size_t n_output = nn->layer[nn->n_layers-1].n_output;
         // fprintf(stderr, "Warning: Stack limit reached with %d samples - recursing.\n", n_samples);
         neuralnet_predict_batch( nn, half, inputs, output );
         neuralnet_predict_batch( nn, n_samples - half, inputs+(half*n_inputs), output+(half*n_output) );
-- 
2.43.0


From e974664fbb41b926a741a654dfea416bcca5fa06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:41 +0000
Subject: [PATCH 24/24] fix: do not index the training set with int when
 calculating batch gradients

---
 src/optimizer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/optimizer.c b/src/optimizer.c
index dd9a80d..5d3e8ee 100644
--- a/src/optimizer.c
+++ b/src/optimizer.c
@@ -73,7 +73,7 @@ void optimizer_calc_batch_gradient( optimizer_t *opt,
     for ( int b = 0 ; b < batchsize; b++){
         const int idx = *i + b;
         float SIMD_ALIGN(grad[n_parameters]);
-        neuralnet_backpropagation( nn, train_X + (opt->pivot[idx] * n_input), train_Y + (opt->pivot[idx] * n_output), grad );
+        neuralnet_backpropagation( nn, train_X + (size_t) opt->pivot[idx] * n_input, train_Y + (size_t) opt->pivot[idx] * n_output, grad );
         /* When using OpenMP, OpenMP will not align stack allocated arrays -- we therefore
            have to use `_unaligned` for this accumulation. :-(  */
         vector_accumulate_unaligned( n_parameters, batchgrad, grad );
-- 
2.43.0


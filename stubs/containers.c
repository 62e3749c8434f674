/* instantiates the header templates of vl with opaque comparison and exchange operations (compiled to bitcode and analysed, never run) */
#include <vl/host.h>

typedef struct OpaqueArray OpaqueArray ;

double st_hcmp (OpaqueArray const * array, vl_uindex a, vl_uindex b) ;
void st_hswap (OpaqueArray * array, vl_uindex a, vl_uindex b) ;
double st_qcmp (OpaqueArray const * array, vl_uindex a, vl_uindex b) ;
void st_qswap (OpaqueArray * array, vl_uindex a, vl_uindex b) ;

#define VL_HEAP_prefix      st_heap
#define VL_HEAP_array       OpaqueArray *
#define VL_HEAP_array_const OpaqueArray const *
#define VL_HEAP_cmp         st_hcmp
#define VL_HEAP_swap        st_hswap
#include <vl/heap-def.h>

#define VL_QSORT_prefix      st_qs
#define VL_QSORT_array       OpaqueArray *
#define VL_QSORT_array_const OpaqueArray const *
#define VL_QSORT_cmp         st_qcmp
#define VL_QSORT_swap        st_qswap
#include <vl/qsort-def.h>

/* the default comparison and exchange */
#define VL_HEAP_prefix dh_heap
#define VL_HEAP_type   double
#include <vl/heap-def.h>

#define VL_QSORT_prefix dq_qs
#define VL_QSORT_type   double
#include <vl/qsort-def.h>

/* a second instance of each in one translation unit */
#define VL_HEAP_prefix dh_heap_two
#define VL_HEAP_type   float
#include <vl/heap-def.h>

#define VL_QSORT_prefix dq_qs_two
#define VL_QSORT_type   float
#include <vl/qsort-def.h>

void st_heap_use_push (OpaqueArray * a, vl_size * n) { st_heap_push (a, n) ; }
vl_uindex st_heap_use_pop (OpaqueArray * a, vl_size * n) { return st_heap_pop (a, n) ; }
void st_heap_use_update (OpaqueArray * a, vl_size n, vl_uindex i) { st_heap_update (a, n, i) ; }
void st_heap_use_up (OpaqueArray * a, vl_size n, vl_uindex i) { st_heap_up (a, n, i) ; }
void st_heap_use_down (OpaqueArray * a, vl_uindex i) { st_heap_down (a, i) ; }
void st_qs_use_sort (OpaqueArray * a, vl_size n) { st_qs_sort (a, n) ; }

double dh_use_cmp (double * a, vl_uindex i, vl_uindex j) { return dh_heap_cmp (a, i, j) ; }
void dh_use_swap (double * a, vl_uindex i, vl_uindex j) { dh_heap_swap (a, i, j) ; }
double dq_use_cmp (double * a, vl_uindex i, vl_uindex j) { return dq_qs_cmp (a, i, j) ; }
void dq_use_swap (double * a, vl_uindex i, vl_uindex j) { dq_qs_swap (a, i, j) ; }
float dh2_use_cmp (float * a, vl_uindex i, vl_uindex j) { return dh_heap_two_cmp (a, i, j) ; }
void dq2_use_swap (float * a, vl_uindex i, vl_uindex j) { dq_qs_two_swap (a, i, j) ; }

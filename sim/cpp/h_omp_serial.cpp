// The scenarios of h_omp.cpp against the headers as they are built by default: no OpenMP, no parallel option. The
// namespaces are renamed so that both builds can be in one program.
#undef _OPENMP
#undef ENABLE_PARALLEL_DISTANCE_MATRIX
#undef ENABLE_PARALLEL_HAUSDORFF_DISTANCE
#undef ENABLE_PARALLEL_COMPLETE_LINK_CLUSTERING
#undef ENABLE_PARALLEL_ROADMAP
#define SERIAL_BUILD
#define arc_helpers serial_arc_helpers
#define EigenHelpers serial_EigenHelpers
#define simple_hierarchical_clustering serial_simple_hierarchical_clustering
#define simple_hausdorff_distance serial_simple_hausdorff_distance
#include "h_omp.cpp"

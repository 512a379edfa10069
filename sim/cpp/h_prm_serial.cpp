// The scenarios of h_prm.cpp against the headers as they are built by default: no OpenMP, no parallel option. The
// namespaces are renamed so that both builds can be in one program.
#undef _OPENMP
#undef ENABLE_PARALLEL_DISTANCE_MATRIX
#undef ENABLE_PARALLEL_HAUSDORFF_DISTANCE
#undef ENABLE_PARALLEL_COMPLETE_LINK_CLUSTERING
#undef ENABLE_PARALLEL_ROADMAP
#define SERIAL_BUILD
#define arc_helpers serial_arc_helpers
#define EigenHelpers serial_EigenHelpers
#define simple_prm_planner serial_simple_prm_planner
#include "h_prm.cpp"

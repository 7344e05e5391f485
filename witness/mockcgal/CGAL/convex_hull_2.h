#include "CGAL/Exact_predicates_exact_constructions_kernel.h"

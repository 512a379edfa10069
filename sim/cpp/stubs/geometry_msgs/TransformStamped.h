#include "stub_types.hpp"

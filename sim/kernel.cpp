#define SIM_KERNEL_IMPL
#include "kernel.hpp"

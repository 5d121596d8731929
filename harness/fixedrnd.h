// std::random_device gives the fixed sequence VH_SEED, VH_SEED+1, ... (times an odd constant) instead of entropy
#pragma once
#include <random>
#include <atomic>
#include <cstdlib>
static std::atomic<unsigned> fixedRnd{0}; static unsigned fixedRank = getenv("OMPI_COMM_WORLD_RANK") ? atoi(getenv("OMPI_COMM_WORLD_RANK")) : 0;
unsigned int std::random_device::_M_getval() { static unsigned s = getenv("VH_SEED") ? atoi(getenv("VH_SEED")) : 1; return (s * 7919u + fixedRank * 104729u + ++fixedRnd) * 2654435761u; }

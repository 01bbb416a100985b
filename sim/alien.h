// Forced into every translation unit: Armadillo's own allocation seam.
#ifndef SIM_ALIEN_H
#define SIM_ALIEN_H
#ifdef __cplusplus
#include <cstddef>
extern "C" void *sim_arma_alloc(std::size_t n);
extern "C" void sim_arma_free(void *p);
#define ARMA_ALIEN_MEM_ALLOC_FUNCTION sim_arma_alloc
#define ARMA_ALIEN_MEM_FREE_FUNCTION sim_arma_free
#endif
#endif

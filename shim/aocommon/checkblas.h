#ifndef VERIF_CHECKBLAS_H
#define VERIF_CHECKBLAS_H
inline void check_openblas_multithreading() {}
#endif

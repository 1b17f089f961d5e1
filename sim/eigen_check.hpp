// Forced include of the memory-checking flavour: Eigen's own index and size
// checks stay on although NDEBUG is set as in the shipped build.
#pragma once
#ifdef __cplusplus
extern "C" void vf_eigen_assert(const char* what, const char* file, int line);
#define eigen_assert(x) do { if (!(x)) vf_eigen_assert(#x, __FILE__, __LINE__); } while (0)
#endif

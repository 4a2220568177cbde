#include "atomics_seq.inc"
void seq3() { seq::type<float>("float"); seq::type<double>("double"); seq::type<int *>("int*"); seq::type<std::complex<float>>("complex<float>"); }

#include "atomics_seq.inc"
void seq1() { seq::type<int>("int"); seq::type<unsigned>("unsigned"); seq::type<signed char>("signed char"); seq::type<unsigned char>("unsigned char"); }

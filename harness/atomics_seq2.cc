#include "atomics_seq.inc"
void seq2() { seq::type<short>("short"); seq::type<unsigned long>("unsigned long"); seq::type<long>("long"); seq::type<long long>("long long"); }

#include "atomics_seq.inc"
void seq4() { seq::type<seq::quad8>("user 4-byte"); seq::type<seq::pair64>("user 16-byte"); seq::type<long double>("long double"); }

#include "vmon.h"
void seq1(); void seq2(); void seq3(); void seq4(); void seqmix();
int main(int c, char ** v) { vm::init(c, v); seq1(); seq2(); seq3(); seq4(); seqmix(); return vm::finish(); }

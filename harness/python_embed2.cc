#include "ristra/embedded/embed_python.h"
int other_unit(PyObject * ident) {
  using namespace ristra::embedded;
  PyObject * v = python_call_function(ident, 7); int r = (int)python_as_long(v); python_free(v); return r;
}

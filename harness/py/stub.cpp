// A module as a stand-in compiler delivers it: the text after the tag is replaced by what it "compiles"
#include <Python.h>
#include <cstdlib>
#include <cstring>

#define CAT_(A, B) A##B
#define CAT(A, B) CAT_(A, B)
#define STR_(A) #A
#define STR(A) STR_(A)

static char text[4096] = "@@TEXT@@ source\n nested\n";
static PyModuleDef def = {PyModuleDef_HEAD_INIT, STR(NAME), nullptr, -1, nullptr, nullptr, nullptr, nullptr, nullptr};

// Lines: the tag, what it was built from, a module to import if any, whether the initialization fails
extern "C" __attribute__((visibility("default"))) PyObject *CAT(PyInit_, NAME)() {
  char *copy = strdup(text), *save = nullptr;
  strtok_r(copy, "\n", &save);
  char *source = strtok_r(nullptr, "\n", &save), *nested = strtok_r(nullptr, "\n", &save), *end = strtok_r(nullptr, "\n", &save);
  if (end && std::strcmp(end, "fails") == 0) {
    PyErr_SetString(PyExc_ImportError, "this module cannot be initialized");
    return nullptr;
  }
  if (end && std::strcmp(end, "raises") == 0) {
    PyErr_SetString(PyExc_ZeroDivisionError, "this module cannot be initialized");
    return nullptr;
  }
  PyObject *m = PyModule_Create(&def);
  PyModule_AddStringConstant(m, "SOURCE", source ? source : "");
  const char *got = "nothing";
  if (nested && std::strcmp(nested, "-") != 0) {
    PyObject *n = PyImport_ImportModule(nested);
    got = n ? "found" : "absent";
    Py_XDECREF(n);
    PyErr_Clear();
  }
  PyModule_AddStringConstant(m, "NESTED", got);
  std::free(copy);
  return m;
}

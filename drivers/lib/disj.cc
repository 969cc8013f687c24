// Whether a text lies outside a string's buffer: always when it lies in another object; their order need not be known.
#include "cx_api.h"
#include <string>
extern "C" bool cx_lib_disjunct(const std::string *t, const char *s) asm("_ZNKSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE11_M_disjunctEPKc");
bool cx_lib_disjunct(const std::string *t, const char *s) { const char *d = t->data(); if (!cx_same_object(d, s)) return true; return s < d || s > d + t->size(); }

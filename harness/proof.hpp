// Proof functions: client code of the public interface whose PROVE lines are
// obligations for every value of the parameters.
#pragma once
#include <cstddef>
#include <functional>
#include <string>
#include "fakeit.hpp"
using namespace fakeit;
extern "C" void verif_prove(bool c, const char *what);
extern "C" void verif_assume(bool c);
extern "C" bool verif_bool();
extern "C" int verif_int();
#define PROVE(c, what) verif_prove((c), what)
#define ASSUME(c) verif_assume(c)
// any number of 0 .. n-1
#ifdef VERIF_NATIVE
static int below(int n) { return (int) ((unsigned) verif_int() % (unsigned) n); }
#else
static int below(int n) { int k = verif_int(); ASSUME(k >= 0 && k < n); return k; }
#endif
// PROOF(properties, name)(parameters) { ... }
#define PROOF(props, name) extern "C" void pf_##name

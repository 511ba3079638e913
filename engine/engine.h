// Internal interface of the VC engine (terms, normal forms, path conditions).
#ifndef VC_ENGINE_H
#define VC_ENGINE_H
#include <cstdint>
#include <gmpxx.h>
#include <map>
#include <string>
#include <vector>
#include "sym.h"
namespace vc {
enum Kind : uint8_t { K_CONST, K_VAR, K_ADD, K_MUL, K_DIV, K_SQRT, K_SIN, K_COS, K_FUN,
                      K_MIN, K_MAX, K_NAN, K_PINF, K_NINF };
struct VarInfo {
  std::string name;
  int idx;
  bool undef = false;
  NP opaque = nullptr;      // definition of a cut variable
  // unit quaternion membership: role 0=w 1=x 2=y 3=z
  int ugroup = -1, urole = -1;
  double slo = -2, shi = 2; // sampling range
  int sign = 0;             // +1: known > 0, +2: known >= 0
};
struct Node {
  Kind k;
  uint32_t id;
  NP a, b;
  const mpq_class* c;
  VarInfo* v;
  const std::string* f;
  mutable uint32_t refs;  // parents
};
NP n_const(const mpq_class& q);
NP n_add(NP a, NP b);
NP n_mul(NP a, NP b);
NP n_div(NP a, NP b);
NP n_neg(NP a);
NP n_sub(NP a, NP b);
NP n_sqrt(NP a);
NP n_sin(NP a);
NP n_cos(NP a);
NP n_fun(const std::string& f, NP a, NP b = nullptr);
NP n_var(const std::string& name);
bool prove_zero(NP d);                  // normal-form zero test under the path's equalities
bool prove_positive(NP d, bool strict); // d > 0 / d >= 0 on the current path
}
#endif

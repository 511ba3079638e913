// API shared by the harnesses (symbolic mode).
#ifndef VC_API_H
#define VC_API_H
#include <string>
#include <vector>
#include "sym.h"
namespace vc {
struct Stats { int z3_calls = 0, z3_unknown = 0, nf_calls = 0, nf_toobig = 0, obligations = 0; double z3_time = 0, nf_time = 0; };
Stats& stats();
Sym var(const std::string& name, double lo = -2, double hi = 2);
Sym pos_var(const std::string& name, double lo = 0.05, double hi = 2);
Sym nonneg_var(const std::string& name, double lo = 0, double hi = 2);
void unit_quat(const std::string& name, Sym* wxyz);
Sym opaque(const Sym& a);                       // cut: a name for a term, definition forgotten
Sym fun(const std::string& f, const Sym& a);    // uninterpreted function
Sym fun(const std::string& f, const Sym& a, const Sym& b);
void ob_bool(const std::string& name, bool v, const std::string& msg = "");
bool ob_zero(const std::string& name, const Sym& a, const Sym& b, bool quiet_fail = false);
void ob_pos(const std::string& name, const Sym& a, bool strict);
void assume_bool(bool b);
void assume_sign(const Sym& a, int mask);       // 1 neg, 2 zero, 4 pos
bool choose(const std::string& label);
int choose_n(const std::string& label, int n);
std::string key_of(const Sym& a);               // canonical key: equal keys mean provably equal values
bool identical(const Sym& a, const Sym& b);    // the same expression: equal in floating point too
bool same(const Sym& a, const Sym& b);
bool ground_value(const Sym& s, double* out);
void note(const std::string& s);
void cover(const std::string& s);
void unsupported(const std::string& s);
void end_path(const char* how);
const char* current_case();
std::string show(const Sym& a);
std::string witness(const Sym& a);              // exact value at a fixed rational point, abbreviated
struct CutMap; CutMap* cuts_new();
void cuts_add(CutMap*, const Sym& orig, const std::string& name);
void cuts_sweep_unit(CutMap* c, const Sym* wxyz, const std::string& name);
void cuts_sweep(CutMap*, const Sym& orig, const std::string& name);
void cuts_add_unit(CutMap*, const Sym* wxyz, const std::string& name);
Sym cuts_apply(CutMap*, const Sym&);
struct InvListItem { int n; std::vector<Sym> s, x; };
typedef std::vector<InvListItem> InvList;
const InvList inverse_records();
bool& inverse_exact();
bool& abs_term();                                // |x| is the term max(x, -x) instead of a case split
bool path_feasible();
bool& generic_equalities();                      // nonlinear terms are different from the values they are compared with (a stated assumption)
bool& norms_nonzero();                            // squared norms tested against zero are positive (proved elsewhere)
double sample_value(const std::string& name, uint64_t seed, double lo, double hi);
void warm_up(void (*fn)());
int run_case(const std::string& name, void (*fn)(), int out_fd, int maxpaths);
}
#endif

#ifndef VERIF_DRV_ERROR_HH
#define VERIF_DRV_ERROR_HH
#include "drv.hh"
#include "errors.hh"
namespace vh {
struct Own : Exceptions::Jali_exception { int v; explicit Own(int x) : v(x) {} };
struct Derived : Errors::Message { explicit Derived(Errors::Message const& m) : Errors::Message(m) {} };
namespace {   // one copy for each place
inline void choose_mode(js::Value const& op) {
  int by = op["by"].num(); bool ab = op["v"].num() == 1;
  if (by == 0) { if (ab) Exceptions::set_exception_behavior_abort(); else Exceptions::set_exception_behavior_raise(); }
  else Exceptions::set_exception_behavior(ab ? Exceptions::ABORT : Exceptions::RAISE);
}
inline void report(js::Value const& op, Errors::Message const *m) {
  std::string w = op["what"].str();
  if (w == "message") Exceptions::Jali_throw(*m);
  if (w == "derived") Exceptions::Jali_throw(Derived(*m));
  if (w == "cut") Exceptions::Jali_throw(Errors::CutTimeStep());
  if (w == "own") Exceptions::Jali_throw(Own(op["v"].num()));
  if (w == "plain") Exceptions::Jali_throw(op["v"].num());
}
}
void other_place_report(js::Value const& op, Errors::Message const *m);
void other_place_mode(js::Value const& op);
int other_place_query();
}
#endif

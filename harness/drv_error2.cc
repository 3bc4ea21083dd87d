// A second place in the program from which errors are reported.
#include "drv.hh"
#include "errors.hh"
#include "drv_error.hh"
namespace vh {
void other_place_report(js::Value const& op, Errors::Message const *m) { report(op, m); }
void other_place_mode(js::Value const& op) { choose_mode(op); }
int other_place_query() { return (int) Exceptions::exception_behavior(); }
}

// Common parts of the conformance drivers.
#ifndef VERIF_DRV_HH
#define VERIF_DRV_HH
#include <functional>
#include <string>
#include <vector>
#include "json.hh"
#include "hmesh.hh"

namespace vh {

// An executed step of a scenario; emitted as soon as the real call returned.
struct Emit {
  std::function<void(js::Value const&)> out;
  void operator()(js::Value const& v) const { out(v); }
};

typedef void (*Handler)(js::Value const& scen, Emit const& emit);

void run_mesh(js::Value const&, Emit const&);
void run_sets(js::Value const&, Emit const&);
void run_geom(js::Value const&, Emit const&);
void run_region(js::Value const&, Emit const&);
void run_state(js::Value const&, Emit const&);
void run_part(js::Value const&, Emit const&);
void run_factory(js::Value const&, Emit const&);
void run_error(js::Value const&, Emit const&);

// Runs f; returns "" or a description of the exception it raised.
std::string guarded(std::function<void()> const& f);
void mpi_up();

Opts opts_of(js::Value const& v);
// Creates the mesh described by the scenario's "mesh" object.
std::shared_ptr<Jali::Mesh> make_mesh(js::Value const& m, Opts const& o,
                                      JaliGeometry::GeometricModelPtr gm = nullptr);

js::Value obs_inc(Jali::Mesh& m, Opts const& o);

template<class C> js::Value ilist(C const& l) {
  js::Value v = js::Value::array();
  for (auto const& e : l) v.push((long) e);
  return v;
}
inline js::Value fpt(Point const& p, double s = 1000.0) {
  js::Value v = js::Value::array();
  for (int i = 0; i < p.dim(); i++) v.push(js::fix(p[i], s));
  return v;
}
inline js::Value fpts(std::vector<Point> const& l, double s = 1000.0) {
  js::Value v = js::Value::array();
  for (auto const& p : l) v.push(fpt(p, s));
  return v;
}
inline Point to_point(js::Value const& v) {
  std::vector<double> d = v.dbls();
  Point p; p.set(d.size(), &(d[0]));
  return p;
}
}  // namespace vh
#endif

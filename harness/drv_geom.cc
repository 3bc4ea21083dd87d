// Drives the geometric primitives: Point arithmetic, segments, polygons, polyhedra.
#include "drv.hh"
#include <sstream>
#include "Geometry.hh"

using js::Value;
using js::fix;
using namespace JaliGeometry;
namespace vh {
static const double U = 16.0;
static Value units(Point const& p, double s) { Value v = Value::array(); for (int i = 0; i < p.dim(); i++) v.push(fix(p[i], s)); return v; }
static Point ptq(Value const& v, double den) {
  std::vector<double> d = v.dbls(); for (double& x : d) x /= den;
  Point p; if (d.size()) p.set(d.size(), &(d[0]));
  return p;
}
static std::vector<Point> pts(Value const& v) { std::vector<Point> l; for (auto const& p : v.a) l.push_back(ptq(p, 1)); return l; }

void run_geom(Value const& sc, Emit const& emit) {
  std::vector<Point> r;
  for (auto const& op : sc["ops"].a) {
    std::string k = op["op"].str();
    Value e = Value::object();
    e.set("op", k);
    auto R = [&](char const *n) -> Point& { return r.at(op[n].num()); };
    auto put = [&](Point const& p) { size_t h = op["h"].num(); if (h >= r.size()) r.push_back(p); else r[h] = p; };
    std::string exc = guarded([&]() {
      std::vector<double> v;
      if (op.has("v")) { v = op["v"].dbls(); for (double& x : v) x /= U; }
      double c = op.num("c", 0);
      r.reserve(r.size() + 1);
      if (k == "mk") {
        std::string how = op["how"].str();
        if (how == "n") r.push_back(Point(op["n"].num()));
        else if (how == "xy") r.push_back(Point(v[0], v[1]));
        else if (how == "xyz") r.push_back(Point(v[0], v[1], v[2]));
        else if (how == "empty") r.push_back(Point());
        else r.push_back(Point(R("a")));
      } else if (k == "set") {
        std::string how = op["how"].str();
        Point& p = R("h");
        if (how == "all") p.set(v[0]);
        else if (how == "pt") p.set(R("a"));
        else if (how == "arr") p.set(&(v[0]));
        else if (how == "narr") p.set((int) v.size(), &(v[0]));
        else if (how == "xy") p.set(v[0], v[1]);
        else if (how == "xyz") p.set(v[0], v[1], v[2]);
        else if (p.dim() == 2) p.set(p[1], p[0]);
        else p.set(p[2], p[1], p[0]);
      }
      else if (k == "asg") R("h") = R("a");
      else if (k == "at") R("h")[op["i"].num()] = v[0];
      else if (k == "add=") R("h") += R("a");
      else if (k == "sub=") R("h") -= R("a");
      else if (k == "mul=") R("h") *= c;
      else if (k == "div=") R("h") /= c;
      else if (k == "mulby=") { Point& p = R("h"); p *= p[op["i"].num()]; }
      else if (k == "add") put(R("a") + R("b"));
      else if (k == "sub") put(R("a") - R("b"));
      else if (k == "neg") put(-R("a"));
      else if (k == "rmul") put(c * R("a"));
      else if (k == "mulr") put(R("a") * c);
      else if (k == "div") put(R("a") / c);
      else if (k == "query") {
        Point const& a = R("a"); Point const& b = R("b");
        e.set("dot", fix(a*b, U*U)).set("dot2", fix(b*a, U*U)).set("cross", units(a^b, U*U)).set("l22", fix(L22(a), U*U)).set("nn", fix(norm(a)*norm(a), U*U));
      }
      else if (k == "polygon") {
        std::vector<Point> p = pts(op["pts"]);
        int d = p[0].dim();
        double area = -777; Point cen(d), nrm(d); cen.set(55.5); nrm.set(44.5);
        polygon_get_area_centroid_normal(p, &area, &cen, &nrm);
        Value in = Value::array();
        for (auto const& q : op["ask"].a) in.push(point_in_polygon(ptq(q, 4), p) ? 1 : 0);
        e.set("area", fix(area)).set("a4", fix(4*area*area, 100)).set("cen", fpt(cen)).set("nrm", fpt(nrm)).set("in", in);
      }
      else if (k == "solid") {
        std::vector<Point> p = pts(op["s"]["pts"]), f;
        std::vector<unsigned> n;
        for (auto const& c : op["s"]["faces"].a) { n.push_back(c.size()); for (int i : c.ints()) f.push_back(p.at(i)); }
        double vol = -777; Point cen(3); cen.set(55.5);
        polyhed_get_vol_centroid(p, n.size(), n, f, &vol, &cen);
        Value in = Value::array();
        for (auto const& q : op["ask"].a) in.push(point_in_polyhed(ptq(q, 4), p, n.size(), n, f) ? 1 : 0);
        e.set("vol", fix(vol)).set("cen", fpt(cen)).set("in", in);
      }
      else if (k == "segment") {
        std::vector<Point> p = {ptq(op["a"], 1), ptq(op["b"], 1)};
        bool sph = op["sph"].yes();
        double vol = -777, area = -777; Point cen(p[0].dim());
        Geom_type g = sph ? Geom_type::SPHERICAL : Geom_type::CARTESIAN;
        segment_get_vol_centroid(p, g, &vol, &cen);
        face1d_get_area({p[0]}, g, &area);
        if (sph) e.set("vol", fix(vol*3/(4*M_PI))).set("area", fix(area/(4*M_PI)));
        else e.set("v2", fix(vol*vol*(vol < 0 ? -1 : 1), 100)).set("cen", fpt(cen)).set("area", fix(area));
      }
      else throw std::runtime_error("unknown op " + k);
    });
    Value regs = Value::array();
    for (auto& p : r) {
      Point q(p); for (int i = 0; i < q.dim(); i++) if (q[i] == 0.0) q[i] = 0.0;   // no negative zeros
      std::ostringstream os; if (p.dim()) os << q;
      regs.push(Value::object().set("dim", p.dim()).set("c", units(p, U)).set("xyz", p.dim() ? Value::array().push(fix(p.x(), U)).push(fix(p.y(), U)).push(fix(p.z(), U)) : Value::array().push(0).push(0).push(0))
                .set("ok", p.is_valid() == 1).set("s", os.str()));
    }
    e.set("exc", exc).set("r", regs);
    emit(e);
  }
}
}  // namespace vh

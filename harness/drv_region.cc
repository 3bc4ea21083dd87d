// Drives regions, geometric models and domains.
#include "drv.hh"
#include "BoxRegion.hh"
#include "PlaneRegion.hh"
#include "PointRegion.hh"
#include "PolygonRegion.hh"
#include "LogicalRegion.hh"
#include "LabeledSetRegion.hh"
#include "GeometricModel.hh"
#include "Domain.hh"

using js::Value;
using namespace JaliGeometry;
namespace vh {
JaliGeometry::RegionPtr make_region(Value const& r, int id);

static Value qfix(Point const& p) { return fpt(p, 1000.0); }
static Value describe(RegionPtr r) {
  Value v = Value::object();
  v.set("name", r->name()).set("id", (long) r->id()).set("dim", (long) r->dimension())
   .set("temp", r->lifecycle() == LifeCycle_type::TEMPORARY);
  switch (r->type()) {
    case Region_type::BOX: {
      BoxRegion *b = dynamic_cast<BoxRegion*>(r);
      Point lo, hi; b->corners(&lo, &hi);
      int nd = 0; bool d = b->is_degenerate(&nd);
      v.set("t", "box").set("p0", qfix(b->point0())).set("p1", qfix(b->point1())).set("lo", qfix(lo)).set("hi", qfix(hi)).set("deg", d).set("ndeg", nd);
      break;
    }
    case Region_type::PLANE: {
      PlaneRegion *b = dynamic_cast<PlaneRegion*>(r);
      v.set("t", "plane").set("p", qfix(b->point())).set("n", qfix(b->normal()));
      break;
    }
    case Region_type::POINT: v.set("t", "point").set("p", qfix(dynamic_cast<PointRegion*>(r)->point())); break;
    case Region_type::POLYGON: {
      PolygonRegion *b = dynamic_cast<PolygonRegion*>(r);
      v.set("t", "polygon").set("np", (long) b->num_points()).set("pts", fpts(b->points())).set("nrm", qfix(b->normal()));
      break;
    }
    case Region_type::LOGICAL: {
      LogicalRegion *b = dynamic_cast<LogicalRegion*>(r);
      v.set("t", "logical").set("of", Value(b->component_regions()));
      Bool_type o = b->operation();
      v.set("bop", o == Bool_type::UNION ? "Union" : o == Bool_type::INTERSECT ? "Intersect" : o == Bool_type::SUBTRACT ? "Subtract" : o == Bool_type::COMPLEMENT ? "Complement" : "None");
      break;
    }
    case Region_type::LABELEDSET: {
      LabeledSetRegion *b = dynamic_cast<LabeledSetRegion*>(r);
      v.set("t", "label").set("label", b->label()).set("ent", b->entity_str());
      break;
    }
    default: v.set("t", "other");
  }
  return v;
}
static RegionPtr copy_of(RegionPtr r) {
  switch (r->type()) {
    case Region_type::BOX: return new BoxRegion(*dynamic_cast<BoxRegion*>(r));
    case Region_type::PLANE: return new PlaneRegion(*dynamic_cast<PlaneRegion*>(r));
    case Region_type::POINT: return new PointRegion(*dynamic_cast<PointRegion*>(r));
    case Region_type::POLYGON: return new PolygonRegion(*dynamic_cast<PolygonRegion*>(r));
    case Region_type::LOGICAL: return new LogicalRegion(*dynamic_cast<LogicalRegion*>(r));
    default: return new LabeledSetRegion(*dynamic_cast<LabeledSetRegion*>(r));
  }
}
template<class T> static int at(std::vector<T*> const& l, T *p) {
  if (!p) return -1;
  for (size_t i = 0; i < l.size(); i++) if (l[i] == p) return i;
  return -2;
}

void run_region(Value const& sc, Emit const& emit) {
  std::vector<RegionPtr> regs;
  std::vector<GeometricModel*> gms;
  std::vector<Domain*> doms;
  std::vector<std::string> names = sc["names"].strs();
  std::vector<int> ids = sc["ids"].ints();
  auto rlist = [&](Value const& v) { std::vector<RegionPtr> l; for (int i : v.ints()) l.push_back(regs.at(i)); return l; };
  for (auto const& op : sc["ops"].a) {
    std::string k = op["op"].str();
    Value e = Value::object();
    e.set("op", k);
    std::string exc = guarded([&]() {
      if (k == "region") regs.push_back(make_region(op["r"], op["id"].num()));
      else if (k == "copy") regs.push_back(copy_of(regs.at(op["r"].num())));
      else if (k == "inside") {
        double den = op["den"].num();
        Value in = Value::array();
        double hair = regs.at(op["r"].num())->type() == Region_type::BOX ? 1e-9 : 1e-14;    // within every tolerance
        for (size_t i = 0; i < op["pts"].a.size(); i++) {
          std::vector<double> d = op["pts"][i].dbls(), off = op["off"][i].dbls();
          for (size_t x = 0; x < d.size(); x++) d[x] = d[x]/den + hair*off.at(x);
          Point p; p.set(d.size(), &(d[0]));
          int res = -1;
          guarded([&]() { res = regs.at(op["r"].num())->inside(p) ? 1 : 0; });
          in.push(res);
        }
        e.set("in", in);
      }
      else if (k == "model") {
        std::string how = op["how"].str();
        if (how == "dim") gms.push_back(new GeometricModel((unsigned) op["dim"].num()));
        else if (how == "list") gms.push_back(new GeometricModel((unsigned) op["dim"].num(), rlist(op["rs"])));
        else gms.push_back(new GeometricModel(*gms.at(op["m"].num())));
      }
      else if (k == "addreg") gms.at(op["m"].num())->Add_Region(regs.at(op["r"].num()));
      else if (k == "domain") {
        std::string how = op["how"].str();
        if (how == "dim") doms.push_back(new Domain((unsigned) op["dim"].num()));
        else if (how == "list") {
          std::vector<GeometricModelPtr> l; for (int i : op["ms"].ints()) l.push_back(gms.at(i));
          doms.push_back(new Domain((unsigned) op["dim"].num(), l, rlist(op["rs"])));
        } else doms.push_back(new Domain(*doms.at(op["d"].num())));
      }
      else if (k == "addmodel") doms.at(op["d"].num())->Add_Geometric_Model(gms.at(op["m"].num()));
      else if (k == "addfree") doms.at(op["d"].num())->Add_Free_Region(regs.at(op["r"].num()));
      else throw std::runtime_error("unknown op " + k);
    });
    e.set("exc", exc);
    Value o = Value::object(), rs = Value::array(), ms = Value::array(), ds = Value::array();
    for (auto r : regs) rs.push(describe(r));
    for (auto g : gms) {
      Value v = Value::object(), l = Value::array(), fi = Value::array(), fn = Value::array();
      for (int i = 0; i < g->Num_Regions(); i++) l.push(at(regs, g->Region_i(i)));
      for (int i : ids) fi.push(at(regs, g->FindRegion(i)));
      for (auto const& n : names) fn.push(at(regs, g->FindRegion(n)));
      v.set("dim", (long) g->dimension()).set("n", g->Num_Regions()).set("l", l).set("byid", fi).set("byname", fn).set("tiling", g->Rough_Check_Tiling());
      ms.push(v);
    }
    for (auto d : doms) {
      Value v = Value::object(), l = Value::array(), f = Value::array();
      for (int i = 0; i < d->Num_Geometric_Models(); i++) l.push(at(gms, d->Geometric_Model_i(i)));
      for (int i = 0; i < d->Num_Free_Regions(); i++) f.push(at(regs, d->Free_Region_i(i)));
      v.set("dim", (long) d->spatial_dimension()).set("l", l).set("f", f).set("nm", d->Num_Geometric_Models()).set("nf", d->Num_Free_Regions());
      ds.push(v);
    }
    o.set("regs", rs).set("models", ms).set("domains", ds);
    e.set("o", o);
    emit(e);
  }
}
}  // namespace vh

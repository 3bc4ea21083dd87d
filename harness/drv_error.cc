// Drives the error handling: its behaviour, messages, and reports from the
// program itself and from every part of the library.
#include <cstring>
#include <deque>
#include "drv_error.hh"
#include "MeshFactory.hh"
#include "Mesh_simple.hh"
#include "BoxRegion.hh"
#include "LogicalRegion.hh"
#include "PolygonRegion.hh"
#include "PointRegion.hh"
#include "PlaneRegion.hh"
#include "LabeledSetRegion.hh"
#include "GeometricModel.hh"
#include "Domain.hh"
using js::Value;
using namespace JaliGeometry;
namespace vh {
static Point P(double x) { return Point(x); }
static Point P(double x, double y) { return Point(x, y); }
static Point P(double x, double y, double z) { return Point(x, y, z); }
typedef std::vector<std::string> Names;
static void at_site(std::string const& w) {
  auto line = []() { return make_mesh(js::parse("{\"fam\":\"s1\",\"x\":[0,1,2]}"), Opts()); };
  auto box = [](GeometricModelPtr gm) { return make_mesh(js::parse("{\"fam\":\"s3\",\"lo\":[0,0,0],\"hi\":[1,1,1],\"n\":[1,1,1]}"), Opts(), gm); };
  auto starts = [&](std::string const& s) { return w.compare(0, s.size(), s) == 0; };
  if (w == "box ctor") BoxRegion("b", 1, P(0, 0), P(1, 1, 1));
  else if (w == "box inside") BoxRegion("b", 1, P(0, 0), P(1, 1)).inside(P(1, 1, 1));
  else if (w == "logical ctor") LogicalRegion("l", 1, "Rotate", Names(1, "x"));
  else if (w == "logical inside") LogicalRegion("l", 1, "Union", Names(1, "x")).inside(P(0, 0));
  else if (w == "polygon ctor") PolygonRegion("p", 1, 2, std::vector<Point>{P(0, 0, 0), P(1, 1, 1)});
  else if (w == "point inside") PointRegion("p", 1, P(0, 0)).inside(P(0, 0, 0));
  else if (w == "plane ctor") PlaneRegion("p", 1, P(0, 0), P(0, 0, 1));
  else if (w == "plane inside") PlaneRegion("p", 1, P(0, 0, 0), P(0, 0, 1)).inside(P(0, 0));
  else if (w == "labeled inside") LabeledSetRegion("s", 1, "CELL", "f", "Exodus II", "1").inside(P(0, 0));
  else if (w == "model ctor") GeometricModel(5);
  else if (w == "model region") { BoxRegion b("b", 1, P(0, 0, 0), P(1, 1, 1)); GeometricModel g(2); g.Add_Region(&b); }
  else if (w == "domain ctor") Domain(7);
  else if (w == "domain model") { GeometricModel g(2); Domain d(3); d.Add_Geometric_Model(&g); }
  else if (w == "domain region") { BoxRegion b("b", 1, P(0, 0, 0), P(1, 1, 1)); Domain d(2); d.Add_Free_Region(&b); }
  else if (w == "entity parent") line()->entity_get_parent(Entity_kind::CELL, 0);
  else if (w == "set of no region") { BoxRegion b("b", 1, P(0, 0, 0), P(1, 1, 1)); GeometricModel g(3, std::vector<RegionPtr>(1, &b)); box(&g)->build_set_from_region("other", Entity_kind::CELL); }
  else if (w == "face set of point") { PointRegion b("b", 1, P(0, 0, 0)); GeometricModel g(3, std::vector<RegionPtr>(1, &b)); box(&g)->build_set_from_region("b", Entity_kind::FACE); }
  else if (w == "logical set of no region") { LogicalRegion b("b", 1, "Union", Names(1, "x")); GeometricModel g(3, std::vector<RegionPtr>(1, &b)); box(&g)->build_set_from_region("b", Entity_kind::CELL); }
  else if (w == "labeled set of other kind") { LabeledSetRegion b("b", 1, "FACE", "f", "Exodus II", "1"); GeometricModel g(3, std::vector<RegionPtr>(1, &b)); box(&g)->build_set_from_region("b", Entity_kind::CELL); }
  else if (w == "simple 2D") Jali::Mesh_simple(0., 0., 1., 1., 1, 1, MPI_COMM_SELF);
  else if (w == "simple extract") Jali::Mesh_simple(*line(), Names(1, "x"), Entity_kind::CELL);
  else if (w == "simple bghost") Jali::Mesh_simple(std::vector<double>{0., 1.}, MPI_COMM_SELF, nullptr, true, false, false, false, false, 0, 0, 1, true);
  else if (w == "factory name") Jali::framework_name(static_cast<Jali::MeshFramework_t>(9));
  else if (starts("factory")) {
    mpi_up();
    Jali::MeshFactory f(MPI_COMM_SELF);
    f.framework(Jali::Simple);
    if (w == "factory framework") f.framework(Jali::MOAB);
    else if (w == "factory read") f(std::string("none.exo"));
    else if (w == "factory box") f(0., 0., 0., 1., 1., 1., 1, 0, 1);
    else if (w == "factory rect") f(0., 0., 1., 1., 2, 2);
    else if (w == "factory line") f(std::vector<double>{1.});
    else if (w == "factory nline") f(0., 1., 0);
    else if (w == "factory model") { GeometricModel g(2); f.geometric_model(&g); f(0., 0., 0., 1., 1., 1., 1, 1, 1); }
    else if (w == "factory extract") f(line(), Names(1, "x"), Entity_kind::CELL, false, false);
  }
  else throw std::logic_error("no such site " + w);
}

void run_error(Value const& sc, Emit const& emit) {
  std::deque<Errors::Message> ms;
  for (auto const& op : sc["ops"].a) {
    std::string k = op["op"].str();
    Value e = Value::object(), caught = Value::array(); bool base = false;
    auto got = [&](std::string const& t, std::string const& x) { caught.push(t).push(x); };
    e.set("op", k);
    try {
      try {
        if (k == "mode") { if (op["tu"].num()) other_place_mode(op); else choose_mode(op); }
        else if (k == "msg") {
          std::string how = op["how"].str(), t = op["t"].str();
          if (how == "empty") ms.emplace_back();
          else if (how == "chars") { char *c = strdup(t.c_str()); ms.emplace_back((char const *) c); memset(c, '#', strlen(c)); free(c); }
          else ms.emplace_back(t);
        }
        else if (k == "put") {
          Errors::Message& m = ms.at(op["m"].num() - 1);
          Errors::Message *cur = &m;
          std::string how = op["how"].str();
          for (auto const& p : op["l"].a) {
            std::string pk = p["k"].str(), t = p["t"].str();
            if (how == "add") { if (pk == "string") cur->add_data(t); else cur->add_data(t.c_str()); }
            else {
              Errors::Message *r = nullptr;
              if (pk == "chars") r = &(*cur << t.c_str());
              else if (pk == "string") r = &(*cur << t);
              else if (pk == "int") r = &(*cur << (int) strtol(t.c_str(), nullptr, 10));
              else r = &(*cur << strtod(t.c_str(), nullptr));
              if (how == "chain") cur = r;
            }
          }
        }
        else if (k == "copy") { Errors::Message c(ms.at(op["m"].num() - 1)); ms.push_back(c); }
        else if (k == "assign") ms.at(op["m"].num() - 1) = ms.at(op["from"].num() - 1);
        else if (k == "throw") {
          std::string w = op["what"].str();
          Errors::Message const *m = w == "message" || w == "derived" ? &ms.at(op["m"].num() - 1) : nullptr;
          if (op["tu"].num()) other_place_report(op, m); else report(op, m);
        }
        else if (k == "site") at_site(op["what"].str());
      }
      catch (Exceptions::Jali_exception&) { base = true; throw; }
    }
    catch (Derived& x) { got("Derived", x.what()); }
    catch (Errors::Message& x) { got("Message", x.what()); }
    catch (Errors::CutTimeStep&) { got("CutTimeStep", ""); }
    catch (Own& x) { got("Own", std::to_string(x.v)); }
    catch (std::exception& x) { got("std", x.what()); }
    catch (int x) { got("int", std::to_string(x)); }
    catch (...) { got("unknown", ""); }
    Value texts = Value::array();
    for (auto const& m : ms) texts.push(std::string(m.what()));
    e.set("msgs", texts).set("caught", caught).set("base", base);
    e.set("mode", Value::array().push((int) Exceptions::exception_behavior()).push(other_place_query()));
    emit(e);
  }
}
}  // namespace vh

// Drives mesh sets (their algebra, mutation, construction from regions, and
// their view through tiles) and records the whole projection of the sets of a
// mesh after every step.
#include <algorithm>
#include "drv.hh"
#include "BoxRegion.hh"
#include "PlaneRegion.hh"
#include "PointRegion.hh"
#include "PolygonRegion.hh"
#include "LogicalRegion.hh"
#include "LabeledSetRegion.hh"
#include "GeometricModel.hh"

using js::Value;
namespace vh {
Value obs_inc(Jali::Mesh& m, Opts const& o);
typedef std::shared_ptr<Jali::MeshSet> SetP;
static const Entity_type O = Entity_type::PARALLEL_OWNED, G = Entity_type::PARALLEL_GHOST,
    B = Entity_type::BOUNDARY_GHOST, A = Entity_type::ALL;
static const char *KN[] = {"node", "edge", "face", "cell", "side", "wedge", "corner"};

static Point qpt(Value const& v, double den) {
  std::vector<double> d = v.dbls();
  for (double& x : d) x /= den;
  Point p; p.set(d.size(), &(d[0]));
  return p;
}

JaliGeometry::RegionPtr make_region(Value const& r, int id) {
  using namespace JaliGeometry;
  std::string t = r["t"].str(), n = r["name"].str();
  double den = r.num("den", 1);
  LifeCycle_type lc = r.yes("temp", false) ? LifeCycle_type::TEMPORARY : LifeCycle_type::PERMANENT;
  if (t == "box") return new BoxRegion(n, id, qpt(r["p0"], den), qpt(r["p1"], den), lc);
  if (t == "plane") return new PlaneRegion(n, id, qpt(r["p"], den), qpt(r["n"], 1), lc);
  if (t == "point") return new PointRegion(n, id, qpt(r["p"], den), lc);
  if (t == "polygon") {
    std::vector<Point> pts;
    for (auto const& p : r["pts"].a) pts.push_back(qpt(p, den));
    return new PolygonRegion(n, id, pts.size(), pts, lc);
  }
  if (t == "label") return new LabeledSetRegion(n, id, r["ent"].str(), "file", "fmt", r["label"].str(), lc);
  std::vector<std::string> comps;
  for (auto const& c : r["of"].a) comps.push_back(c.str());
  std::string op = r["bop"].str();
  if (r.yes("byname", true)) return new LogicalRegion(n, id, op, comps, lc);
  return new LogicalRegion(n, id, op == "Union" ? Bool_type::UNION : op == "Intersect" ? Bool_type::INTERSECT :
                           op == "Subtract" ? Bool_type::SUBTRACT : Bool_type::COMPLEMENT, comps, lc);
}

struct SetsRun {
  std::shared_ptr<Jali::Mesh> m;
  std::vector<SetP> h;
  std::vector<std::string> names;          // names to look up
  std::vector<int> nall;                   // entities of each kind

  int handle(SetP const& s) {
    if (!s) return -1;
    for (size_t i = 0; i < h.size(); i++) if (h[i] == s) return i;
    h.push_back(s);
    return h.size() - 1;
  }
  std::vector<SetP> list(Value const& v) { std::vector<SetP> r; for (int i : v.ints()) r.push_back(h.at(i)); return r; }
  void split(Entity_kind k, std::vector<int> const& ents, Entity_ID_List *o, Entity_ID_List *g) {
    for (int e : ents) {
      Entity_type t = m->entity_get_type(k, e);
      if (t == O) o->push_back(e); else if (t == G) g->push_back(e);
    }
  }
  Value project(SetP const& s) {
    Value v = Value::object();
    int k = static_cast<int>(s->kind());
    v.set("name", s->name()).set("kind", k);
    v.set("own", ilist(s->entities<O>())).set("gho", ilist(s->entities<G>())).set("all", ilist(s->entities<A>()));
    v.set("bgh", ilist(s->entities<B>()));
    Value idx = Value::array();
    if (k >= 0 && k < 7) for (int e = 0; e < nall[k]; e++) idx.push((long) s->index_in_set(e));
    v.set("idx", idx);
    Value n = Value::array();
    n.push((long) s->num_entities(O)).push((long) s->num_entities(G)).push((long) s->num_entities(A)).push((long) s->num_entities());
    v.set("num", n);
    Value nk = Value::array();
    if (k >= 0 && k < 7) nk.push((long) s->num_entities(s->kind(), O)).push((long) s->num_entities(s->kind(), G)).push((long) s->num_entities(s->kind(), A));
    v.set("numk", nk);
    v.set("here", &s->mesh() == m.get());
    return v;
  }
  Value observe() {
    Value v = Value::object();
    Value reg = Value::array();
    for (auto const& s : m->sets()) reg.push(handle(s));
    Value any = Value::array();
    for (auto const& s : m->sets(Entity_kind::ANY_KIND)) any.push(handle(s));
    Value bk = Value::array(), nk = Value::array();
    for (int k = 0; k < 7; k++) {
      Value l = Value::array();
      for (auto const& s : m->sets(static_cast<Entity_kind>(k))) l.push(handle(s));
      bk.push(l); nk.push(m->num_sets(static_cast<Entity_kind>(k)));
    }
    Value find = Value::array();
    std::vector<std::string> look = names;
    for (auto const& s : m->sets()) if (std::find(look.begin(), look.end(), s->name()) == look.end()) look.push_back(s->name());
    Jali::Mesh const& cm = *m;
    for (auto const& nm : look)
      for (int k = 0; k < 7; k++) {
        Entity_kind kind = static_cast<Entity_kind>(k);
        Value f = Value::object();
        f.set("name", nm).set("kind", k).set("h", handle(m->find_meshset(nm, kind)));
        Value sz = Value::array(), szc = Value::array(), en = Value::array();
        for (Entity_type t : {O, G, A, B}) {
          sz.push((long) m->get_set_size(nm, kind, t));
          szc.push((long) cm.get_set_size(nm, kind, t));
          Entity_ID_List l(1, 77);
          m->get_set_entities(nm, kind, t, &l);
          en.push(ilist(l));
        }
        f.set("size", sz).set("csize", szc).set("ents", en);
        find.push(f);
      }
    Value ss = Value::array();
    for (size_t i = 0; i < h.size(); i++) ss.push(project(h[i]));
    v.set("reg", reg).set("any", any).set("bykind", bk).set("nkind", nk).set("nany", m->num_sets())
     .set("find", find).set("sets", ss);
    return v;
  }
};

static Value classes(Jali::Mesh& m, Opts const& o, std::vector<int> *nall) {
  Value c = Value::array();
  nall->assign(7, 0);
  bool sub = o.sides || o.wedges || o.corners;
  for (int k = 0; k < 7; k++) {
    Value l = Value::array();
    Entity_kind kind = static_cast<Entity_kind>(k);
    bool have = k == 0 || k == 3 || (k == 2 && (o.faces || sub)) || (k == 1 && (o.edges || sub)) ||
        (k == 4 && (o.sides || o.wedges || o.corners)) || (k == 5 && (o.wedges || o.corners)) || (k == 6 && o.corners);
    if (have) {
      int n = m.num_entities(kind, A);
      (*nall)[k] = n;
      for (int e = 0; e < n; e++) l.push((long) static_cast<int>(m.entity_get_type(kind, e)));
    }
    c.push(l);
  }
  return c;
}

static Value proj_brief(SetsRun& r, SetP const& s, std::vector<int> const& uni) {
  Value v = Value::array();
  v.push(ilist(s->entities<O>())).push(ilist(s->entities<G>())).push(ilist(s->entities<A>()));
  Value idx = Value::array();
  for (int e : uni) idx.push((long) s->index_in_set(e));
  v.push(idx);
  Value n = Value::array();
  n.push((long) s->num_entities(O)).push((long) s->num_entities(G)).push((long) s->num_entities(A));
  v.push(n);
  return v;
}

static void apply(Jali::MeshSet& s, std::string const& o, std::vector<int> const& l) {
  if (o == "add") s.add_entity(l[0]);
  else if (o == "rem") s.rem_entity(l[0]);
  else if (o == "adds") s.add_entities(l);
  else if (o == "rems") s.rem_entities(l);
  else throw std::runtime_error("op " + o);
}

void run_sets(Value const& sc, Emit const& emit) {
  SetsRun r;
  Opts o = opts_of(sc["opt"]);
  std::vector<JaliGeometry::RegionPtr> regs;
  JaliGeometry::GeometricModelPtr gm = nullptr;
  {
    Value e = Value::object();
    e.set("op", "make");
    e.set("exc", guarded([&]() {
      if (sc.has("regions") && sc["regions"].a.size()) {
        int id = 100;
        for (auto const& x : sc["regions"].a) regs.push_back(make_region(x, id++));
        gm = new JaliGeometry::GeometricModel(sc["gdim"].num(), regs);
      }
      r.m = make_mesh(sc["mesh"], o, gm);
      e.set("cls", classes(*r.m, o, &r.nall));
      for (auto const& n : sc["names"].a) r.names.push_back(n.str());
      Value rd = Value::array();
      for (auto p : regs) rd.push((long) p->dimension());
      e.set("rdim", rd);
      if (sc["mesh"]["fam"].str() != "h") e.set("inc", obs_inc(*r.m, o));
      e.set("o", r.observe());
    }));
    emit(e);
    if (!r.m) return;
  }
  Jali::Mesh& m = *r.m;
  for (auto const& op : sc["ops"].a) {
    std::string k = op["op"].str();
    Value e = Value::object();
    e.set("op", k);
    Value ret = Value(-1);
    std::string exc = guarded([&]() {
      Entity_kind kind = op.has("kind") ? static_cast<Entity_kind>(op["kind"].num()) : Entity_kind::UNKNOWN_KIND;
      if (k == "mk") {
        Entity_ID_List ow, gh;
        r.split(kind, op["ents"].ints(), &ow, &gh);
        SetP s;
        if (op.yes("temp", false)) s = std::make_shared<Jali::MeshSet>(op["name"].str(), m, kind, ow, gh, op.yes("rev", true));
        else s = Jali::make_meshset(op["name"].str(), m, kind, ow, gh, op.yes("rev", true));
        ret = r.handle(s);
      } else if (k == "add" || k == "rem" || k == "adds" || k == "rems") {
        apply(*r.h.at(op["h"].num()), k, op["l"].ints());
      } else if (k == "clear") { r.h.at(op["h"].num())->clear();
      } else if (k == "rename") { r.h.at(op["h"].num())->set_name(op["name"].str());
      } else if (k == "copy") { ret = r.handle(std::make_shared<Jali::MeshSet>(*r.h.at(op["h"].num())));
      } else if (k == "addset") { m.add_set(r.h.at(op["h"].num()));
      } else if (k == "merge" || k == "inter" || k == "comp") {
        bool t = op.yes("temp", false);
        std::vector<SetP> l = r.list(op["hs"]);
        ret = r.handle(k == "merge" ? merge(l, t) : k == "inter" ? intersect(l, t) : complement(l, t));
      } else if (k == "sub") {
        ret = r.handle(subtract(r.h.at(op["h"].num()), r.list(op["hs"]), op.yes("temp", false)));
      } else if (k == "init") {
        if (!op.has("map")) m.init_sets_from_geometric_model();
        else {
          std::map<std::string, std::vector<Entity_kind>> mp;
          for (auto const& x : op["map"].a) {
            std::vector<Entity_kind> ks;
            for (int q : x["kinds"].ints()) ks.push_back(static_cast<Entity_kind>(q));
            mp[x["name"].str()] = ks;
          }
          m.init_sets_from_geometric_model(mp);
        }
      } else if (k == "build") {
        ret = r.handle(op.yes("rev", true) ? m.build_set_from_region(op["name"].str(), kind) : m.build_set_from_region(op["name"].str(), kind, false));
      } else if (k == "fromreg") {
        if (op.yes("const", false)) { Jali::Mesh const& cm = m; ret = r.handle(cm.find_meshset_from_region(op["name"].str(), kind)); }
        else ret = r.handle(m.find_meshset_from_region(op["name"].str(), kind, op.yes("create", false)));
      } else if (k == "valid") {
        Value a = Value::array();
        for (auto const& n : r.names) {
          Value b = Value::array();
          for (int q = 0; q < 4; q++) b.push(m.valid_region_name(n, static_cast<Entity_kind>(q)));
          a.push(b);
        }
        e.set("valid", a);
      } else if (k == "tileset") {
        Value ts = Value::array();
        for (auto const& t : m.tiles()) {
          Value tv = Value::object(), cl = Value::array(), q = Value::array();
          for (int kk = 0; kk < 7; kk++) {
            Value three = Value::array();
            Entity_kind kind2 = static_cast<Entity_kind>(kk);
            if (r.nall[kk]) {
              auto lists = [&](Entity_type ty) -> Value {
                switch (kind2) {
                  case Entity_kind::NODE: return ilist(ty == O ? t->nodes<O>() : ty == G ? t->nodes<G>() : t->nodes<A>());
                  case Entity_kind::EDGE: return ilist(ty == O ? t->edges<O>() : ty == G ? t->edges<G>() : t->edges<A>());
                  case Entity_kind::FACE: return ilist(ty == O ? t->faces<O>() : ty == G ? t->faces<G>() : t->faces<A>());
                  case Entity_kind::CELL: return ilist(ty == O ? t->cells<O>() : ty == G ? t->cells<G>() : t->cells<A>());
                  case Entity_kind::SIDE: return ilist(ty == O ? t->sides<O>() : ty == G ? t->sides<G>() : t->sides<A>());
                  case Entity_kind::WEDGE: return ilist(ty == O ? t->wedges<O>() : ty == G ? t->wedges<G>() : t->wedges<A>());
                  default: return ilist(ty == O ? t->corners<O>() : ty == G ? t->corners<G>() : t->corners<A>());
                }
              };
              for (Entity_type ty : {O, G, A}) three.push(lists(ty));
            }
            cl.push(three);
          }
          std::vector<std::string> look = r.names;
          for (auto const& s : m.sets()) if (std::find(look.begin(), look.end(), s->name()) == look.end()) look.push_back(s->name());
          for (auto const& n : look) for (int kk = 0; kk < 7; kk++) {
            Value f = Value::object(), three = Value::array();
            for (Entity_type ty : {O, G, A}) {
              Entity_ID_List l(1, 77);
              t->get_set_entities(n, static_cast<Entity_kind>(kk), ty, &l);
              three.push(ilist(l));
            }
            f.set("name", n).set("kind", kk).set("l", three);
            q.push(f);
          }
          tv.set("cls", cl).set("q", q);
          ts.push(tv);
        }
        e.set("tiles", ts);
      } else if (k == "hist") {
        std::vector<int> uni = op["uni"].ints();
        Value all = Value::array();
        for (auto const& hist : op["hs"].a) {
          Entity_ID_List ow, gh;
          r.split(kind, hist["init"].ints(), &ow, &gh);
          SetP s = std::make_shared<Jali::MeshSet>("h", m, kind, ow, gh, op.yes("rev", true));
          Value one = Value::array();
          one.push(proj_brief(r, s, uni));
          for (auto const& st : hist["st"].a) {
            apply(*s, st["o"].str(), st["l"].ints());
            one.push(proj_brief(r, s, uni));
          }
          all.push(one);
        }
        e.set("hists", all);
      } else throw std::runtime_error("unknown op " + k);
    });
    e.set("exc", exc).set("ret", ret);
    if (k != "hist" && k != "tileset" && k != "valid") { Value ob; std::string x2 = guarded([&]() { ob = r.observe(); }); e.set("o", ob); if (x2.size()) e.set("exc", x2); }
    emit(e);
  }
}
}  // namespace vh

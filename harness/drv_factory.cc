// Drives Jali::MeshFactory through histories of options and creations.
#include "drv.hh"
#include "MeshFactory.hh"
#include "BoxRegion.hh"
using js::Value;

// A communicator that says it has two processes although it has one, so that
// the refusals of parallel meshes can be observed in a single process.
static MPI_Comm two_procs = MPI_COMM_NULL;
extern "C" int MPI_Comm_size(MPI_Comm comm, int *size) {
  if (two_procs != MPI_COMM_NULL && comm == two_procs) { *size = 2; return MPI_SUCCESS; }
  return PMPI_Comm_size(comm, size);
}

namespace vh {
using Jali::MeshFactory; using Jali::Mesh;
static const Entity_type A = Entity_type::ALL, O = Entity_type::PARALLEL_OWNED;
static int geomno(JaliGeometry::Geom_type g) { return g == JaliGeometry::Geom_type::CARTESIAN ? 0 : g == JaliGeometry::Geom_type::CYLINDRICAL ? 1 : g == JaliGeometry::Geom_type::SPHERICAL ? 2 : 9; }
static JaliGeometry::Geom_type geomof(int g) { return g == 1 ? JaliGeometry::Geom_type::CYLINDRICAL : g == 2 ? JaliGeometry::Geom_type::SPHERICAL : JaliGeometry::Geom_type::CARTESIAN; }

static Value capabilities() {
  Value v = Value::object(), nm = Value::array(), av = Value::array(), ge = Value::array(), re = Value::array(), ex = Value::array();
  for (int f = 1; f <= 4; f++) {
    Jali::MeshFramework_t fw = static_cast<Jali::MeshFramework_t>(f);
    nm.push(Jali::framework_name(fw)); av.push(Jali::framework_available(fw));
    Value g = Value::array(), r = Value::array(), x = Value::array();
    for (bool par : {false, true}) {
      Value g1 = Value::array(), r1 = Value::array(), x1 = Value::array();
      for (int d = 0; d <= 4; d++) { g1.push(Jali::framework_generates(fw, par, d)); x1.push(Jali::framework_extracts(fw, par, d)); }
      for (int t = 1; t <= 3; t++) r1.push(Jali::framework_reads(fw, par, static_cast<Jali::MeshFormat_t>(t)));
      g.push(g1); r.push(r1); x.push(x1);
    }
    ge.push(g); re.push(r); ex.push(x);
  }
  bool noname = guarded([&]() { Jali::framework_name(static_cast<Jali::MeshFramework_t>(7)); }).substr(0, 5) == "Jali:";
  return v.set("name", nm).set("avail", av).set("gen", ge).set("read", re).set("ext", ex).set("noname", noname);
}

struct Factories {
  MeshFactory f;
  std::vector<std::unique_ptr<JaliGeometry::GeometricModel>> gm;
  std::vector<std::unique_ptr<JaliGeometry::Region>> rg;
  std::vector<std::shared_ptr<Mesh>> made;
  static MPI_Comm comm(int ranks) {
    if (ranks == 1) return MPI_COMM_SELF;
    if (two_procs == MPI_COMM_NULL) MPI_Comm_dup(MPI_COMM_SELF, &two_procs);
    return two_procs;
  }
  explicit Factories(int ranks) : f(comm(ranks)) {
    for (int d = 1; d <= 3; d++) {
      Point a(d), b(d);
      for (int k = 0; k < d; k++) { a[k] = -1000; b[k] = 1000; }
      rg.emplace_back(new JaliGeometry::BoxRegion("everywhere", d, a, b));
      gm.emplace_back(new JaliGeometry::GeometricModel(d, std::vector<JaliGeometry::RegionPtr>(1, rg.back().get())));
    }
  }
  int gmno(JaliGeometry::GeometricModelPtr p) { if (!p) return 0; for (int d = 0; d < 3; d++) if (p == gm[d].get()) return d + 1; return -1; }
  Value options() {
    Value v = Value::object();
    Value inc = Value::array();
    for (auto k : f.included_entities()) inc.push((int) k);
    return v.set("fw", (int) f.framework()).set("inc", inc).set("tiles", f.num_tiles()).set("halo", f.num_ghost_layers_tile())
      .set("dist", f.num_ghost_layers_distmesh()).set("bg", f.boundary_ghosts_requested()).set("part", (int) f.partitioner())
      .set("geom", geomno(f.mesh_geometry())).set("gm", gmno(f.geometric_model()));
  }
  Value look(Mesh& m) {
    Opts o; o.faces = true; o.edges = o.sides = o.wedges = o.corners = false;
    Value v = obs_inc(m, o), cnt = Value::array(), t = Value::array();
    bool owned = true;
    for (int k = 0; k < 7; k++) {
      cnt.push((int) m.num_entities(static_cast<Entity_kind>(k), A));
      owned = owned && m.num_entities(static_cast<Entity_kind>(k), A) == m.num_entities(static_cast<Entity_kind>(k), O);
    }
    for (auto const& ti : m.tiles()) {
      Value x = Value::object();
      t.push(x.set("own", ilist(ti->cells<Entity_type::PARALLEL_OWNED>())).set("gh", ilist(ti->cells<Entity_type::PARALLEL_GHOST>())));
    }
    v.set("cnt", cnt).set("owned", owned).set("t", t).set("sdim", (int) m.space_dimension()).set("mdim", (int) m.manifold_dimension());
    v.set("geom", geomno(m.geom_type())).set("gm", gmno(m.geometric_model()));
    Entity_ID_List set;
    if (m.geometric_model()) m.init_sets_from_geometric_model(), m.get_set_entities("everywhere", Entity_kind::CELL, A, &set);
    v.set("set", ilist(set));
    return v;
  }
};

void run_factory(Value const& sc, Emit const& emit) {
  mpi_up();
  Factories F(sc.num("ranks", 1));
  MeshFactory& f = F.f;
  for (auto const& op : sc["ops"].a) {
    std::string k = op["op"].str();
    Value e = Value::object();
    e.set("op", k);
    std::shared_ptr<Mesh> m; bool creates = false;
    int v = op.num("v", 0);
    std::string exc = guarded([&]() {
      auto kinds = [&]() { std::vector<Entity_kind> l; for (int x : op["l"].ints()) l.push_back(static_cast<Entity_kind>(x)); return l; };
      if (k == "framework") f.framework(static_cast<Jali::MeshFramework_t>(v));
      else if (k == "inc") f.included_entities(static_cast<Entity_kind>(v));
      else if (k == "incl") f.included_entities(kinds());
      else if (k == "exc") f.excluded_entities(kinds());
      else if (k == "tiles") f.num_tiles(v);
      else if (k == "halo") f.num_ghost_layers_tile(v);
      else if (k == "dist") f.num_ghost_layers_distmesh(v);
      else if (k == "bg") f.boundary_ghosts_requested(v == 1);
      else if (k == "part") f.partitioner(static_cast<Partitioner_type>(v));
      else if (k == "geom") f.mesh_geometry(geomof(v));
      else if (k == "gm") f.geometric_model(v ? F.gm[v - 1].get() : nullptr);
      else if (k == "gids") f.contiguous_gids(v == 1);
      else if (k == "reset") f.reset_options();
      else if (k == "caps") e.set("caps", capabilities());
      else if (k == "look") { Value l = Value::array(); for (auto const& q : F.made) l.push(F.look(*q)); e.set("meshes", l); }
      else {
        creates = true;
        if (k == "box") { auto a = op["lo"].dbls(), b = op["hi"].dbls(); auto n = op["n"].ints(); m = f(a[0], a[1], a[2], b[0], b[1], b[2], n[0], n[1], n[2]); }
        else if (k == "rect") { auto a = op["lo"].dbls(), b = op["hi"].dbls(); auto n = op["n"].ints(); m = f(a[0], a[1], b[0], b[1], n[0], n[1]); }
        else if (k == "line") m = f(op["x"].dbls());
        else if (k == "nline") m = f((double) op["lo"].num(), (double) op["hi"].num(), (int) op["n"].num());
        else if (k == "read") m = f(std::string("no_such_file.exo"));
        else if (k == "extract") {
          std::shared_ptr<Mesh> in = F.made.size() ? F.made.back() : nullptr;
          if (!in) in = make_mesh(js::parse("{\"fam\":\"s1\",\"x\":[0,1,2]}"), Opts());
          m = f(in, std::vector<std::string>(1, "everywhere"), Entity_kind::CELL, false, false);
        }
      }
    });
    e.set("exc", exc == "" ? "" : exc.substr(0, 5) == "Jali:" ? "Jali" : exc).set("msg", exc.size() > 6);
    if (creates) {
      e.set("null", !m);
      if (m) { F.made.push_back(m); e.set("o", F.look(*m)); }
    }
    e.set("opts", F.options());
    emit(e);
  }
}
}  // namespace vh

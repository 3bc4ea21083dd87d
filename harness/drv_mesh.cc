// Drives Mesh / MeshTile and records what every query answers.
#include <cmath>
#include "drv.hh"
#include "Mesh_simple.hh"

using js::Value;
using js::fix;

namespace vh {

static const Entity_type O = Entity_type::PARALLEL_OWNED, G = Entity_type::PARALLEL_GHOST,
    B = Entity_type::BOUNDARY_GHOST, A = Entity_type::ALL;

Opts opts_of(Value const& v) {
  Opts o;
  o.faces = v.yes("faces", true); o.edges = v.yes("edges", false); o.sides = v.yes("sides", false);
  o.wedges = v.yes("wedges", false); o.corners = v.yes("corners", false);
  o.tiles = v.num("tiles", 0); o.halo = v.num("halo", 0);
  o.part = static_cast<Partitioner_type>(v.num("part", 0));
  if (v.has("mk")) o.mk = v["mk"];
  o.geom = v.str("geom", "CART") == "SPH" ? JaliGeometry::Geom_type::SPHERICAL : JaliGeometry::Geom_type::CARTESIAN;
  return o;
}

// The unit of length of a mesh is a power of two; what is measured is told in
// that unit, and whether every measure was a multiple of 1/48 of it.
static thread_local double g_unit = 1.0;
static thread_local bool g_fine = true;
static double units(int d) { double u = 1; while (d-- > 0) u *= g_unit; return u; }
static Value F(double x, int d = 1, double s = 1000.0) {
  double y = x/units(d)*(s/1000.0), q = 48.0*y;
  if (!(std::fabs(q - std::round(q)) <= 1e-9 + 1e-12*std::fabs(q))) g_fine = false;
  return fix(y);
}
static Value FP(Point const& p, int d = 1, double s = 1000.0) {
  Value v = Value::array();
  for (int i = 0; i < p.dim(); i++) v.push(F(p[i], d, s));
  return v;
}
static Value FPS(std::vector<Point> const& l) {
  Value v = Value::array();
  for (auto const& p : l) v.push(FP(p));
  return v;
}
static std::vector<double> in_units(std::vector<double> x) { for (double& y : x) y *= g_unit; return x; }

static void make_tile(Jali::Mesh& m, Value const& t, std::shared_ptr<Jali::MeshTile> *made = nullptr) {
  Value const& h = t["has"];  // node, edge, face, cell, side, wedge, corner
  auto r = Jali::make_meshtile(m, t["cells"].ints(), t["halo"].num(), h[2].b, h[1].b, h[4].b, h[5].b, h[6].b);
  if (made) *made = r;
}
static std::shared_ptr<Jali::Mesh> make_bare(Value const& m, Opts const& o, JaliGeometry::GeometricModelPtr gm);
std::shared_ptr<Jali::Mesh> make_mesh(Value const& m, Opts const& o, JaliGeometry::GeometricModelPtr gm) {
  auto r = make_bare(m, o, gm);
  for (auto const& t : o.mk.a) make_tile(*r, t);
  return r;
}
static std::shared_ptr<Jali::Mesh> make_bare(Value const& m, Opts const& o, JaliGeometry::GeometricModelPtr gm) {
  std::string fam = m["fam"].str();
  g_unit = std::ldexp(1.0, m.num("ue", 0));
  if (fam == "s3") {
    std::vector<double> lo = in_units(m["lo"].dbls()), hi = in_units(m["hi"].dbls());
    std::vector<int> n = m["n"].ints();
    auto r = std::make_shared<Jali::Mesh_simple>(lo[0], lo[1], lo[2], hi[0], hi[1], hi[2], n[0], n[1], n[2],
        MPI_COMM_SELF, gm, o.faces, o.edges, o.sides, o.wedges, o.corners, o.tiles, o.halo, 0, false, o.part);
    if (gm && m.yes("initsets", true)) r->init_sets_from_geometric_model();
    return r;
  }
  if (fam == "s1") {
    auto r = std::make_shared<Jali::Mesh_simple>(in_units(m["x"].dbls()), MPI_COMM_SELF, gm, o.faces, o.edges, o.sides,
        o.wedges, o.corners, o.tiles, o.halo, 0, false, o.part, o.geom);
    if (gm && m.yes("initsets", true)) r->init_sets_from_geometric_model();
    return r;
  }
  return std::make_shared<HarnessMesh>(m, o, gm);
}

typedef Jali::Mesh M;

Value obs_inc(M& m, Opts const& o) {
  Value v = Value::object();
  int nc = m.num_cells(), nn = m.num_nodes(), nf = o.faces || o.sides || o.wedges || o.corners ? m.num_faces() : 0;
  int ne = o.edges || o.sides || o.wedges || o.corners ? m.num_edges() : 0;
  v.set("nc", nc).set("nf", nf).set("ne", ne).set("nn", nn);
  v.set("sd", (int) m.space_dimension()).set("md", (int) m.manifold_dimension()).set("rect", m.mesh_type() == Jali::Mesh_type::RECTANGULAR).set("sph", m.geom_type() == JaliGeometry::Geom_type::SPHERICAL);
  Entity_ID_List l, l2; std::vector<dir_t> d;
  auto grid = [&]() { return Value::array(); };
  Value X = grid(), Xa = grid();
  for (int n = 0; n < nn; n++) {
    Point p; m.node_get_coordinates(n, &p); X.push(FP(p));
    Value a = Value::array();
    if (m.space_dimension() == 3) { std::array<double, 3> q; m.node_get_coordinates(n, &q); for (double x : q) a.push(F(x)); }
    else if (m.space_dimension() == 2) { std::array<double, 2> q; m.node_get_coordinates(n, &q); for (double x : q) a.push(F(x)); }
    else { double q; m.node_get_coordinates(n, &q); a.push(F(q)); }
    Xa.push(a);
  }
  v.set("X", X).set("Xa", Xa);
  Value cn = grid(), cX = grid(), ct = grid(), cna = grid(), cfa = grid();
  for (int c = 0; c < nc; c++) {
    m.cell_get_nodes(c, &l); cn.push(ilist(l));
    std::vector<Point> p(9); m.cell_get_coordinates(c, &p); cX.push(FPS(p));
    ct.push((int) m.cell_get_type(c));
    Value x = grid(), y = grid();
    for (Entity_type t : {A, O, G}) {
      m.cell_get_node_adj_cells(c, t, &l); x.push(ilist(l));
      if (nf) { m.cell_get_face_adj_cells(c, t, &l); y.push(ilist(l)); }
    }
    cna.push(x); cfa.push(y);
  }
  v.set("cn", cn).set("cX", cX).set("ct", ct).set("cna", cna).set("cfa", cfa);
  if (nf) {
    Value cf = grid(), cd = grid(), cf1 = grid(), cfo = grid(), cdo = grid(), cnf = grid();
    for (int c = 0; c < nc; c++) {
      m.cell_get_faces_and_dirs(c, &l, &d); cf.push(ilist(l)); cd.push(ilist(d));
      m.cell_get_faces(c, &l); cf1.push(ilist(l));
      m.cell_get_faces_and_dirs(c, &l, &d, true); cfo.push(ilist(l)); cdo.push(ilist(d));
      cnf.push((int) m.cell_get_num_faces(c));
    }
    v.set("cf", cf).set("cd", cd).set("cf1", cf1).set("cfo", cfo).set("cdo", cdo).set("cnf", cnf);
    Value fn = grid(), fX = grid(), fc = grid();
    for (int f = 0; f < nf; f++) {
      m.face_get_nodes(f, &l); fn.push(ilist(l));
      std::vector<Point> p(9); m.face_get_coordinates(f, &p); fX.push(FPS(p));
      Value x = grid();
      for (Entity_type t : {A, O, G}) { m.face_get_cells(f, t, &l); x.push(ilist(l)); }
      fc.push(x);
    }
    v.set("fn", fn).set("fX", fX).set("fc", fc);
  }
  if (ne) {
    Value ce = grid(), en = grid(), fe = grid(), fd = grid(), c2 = grid(), c2d = grid(), fce = grid();
    for (int c = 0; c < nc; c++) {
      m.cell_get_edges(c, &l); ce.push(ilist(l));
      if (m.manifold_dimension() == 2) { m.cell_2D_get_edges_and_dirs(c, &l, &d); c2.push(ilist(l)); c2d.push(ilist(d)); }
    }
    for (int e = 0; e < ne; e++) { int a, b; m.edge_get_nodes(e, &a, &b); en.push(Value::array().push(a).push(b)); }
    if (m.manifold_dimension() > 1)
      for (int f = 0; f < nf; f++) {
        m.face_get_edges_and_dirs(f, &l, &d); fe.push(ilist(l)); fd.push(ilist(d));
        Value x = grid();
        m.face_get_cells(f, A, &l);
        for (int c : l) { std::vector<int> map(9, 3); m.face_to_cell_edge_map(f, c, &map); x.push(Value::array().push(c).push(ilist(map))); }
        fce.push(x);
      }
    v.set("ce", ce).set("en", en).set("fe", fe).set("fd", fd).set("c2", c2).set("c2d", c2d).set("fce", fce);
  }
  Value nca = grid(), nfa = grid(), ncf = grid();
  for (int n = 0; n < nn; n++) {
    Value x = grid(), y = grid(), z = grid();
    for (Entity_type t : {A, O, G}) {
      m.node_get_cells(n, t, &l); x.push(ilist(l));
      if (nf) { m.node_get_faces(n, t, &l); y.push(ilist(l)); }
    }
    m.node_get_cells(n, A, &l2);
    if (nf)
      for (int c : l2) {
        Value w = Value::array().push(c);
        for (Entity_type t : {A, O, G}) { m.node_get_cell_faces(n, c, t, &l); w.push(ilist(l)); }
        z.push(w);
      }
    nca.push(x); nfa.push(y); ncf.push(z);
  }
  v.set("nca", nca).set("nfa", nfa).set("ncf", ncf);
  return v;
}

template<class L> static Value lists(L f) { return f; }

static Value obs_cls(M& m) {
  Value v = Value::object();
  struct K { Entity_kind k; const char *n; };
  static const K ks[] = {{Entity_kind::NODE, "node"}, {Entity_kind::EDGE, "edge"}, {Entity_kind::FACE, "face"},
      {Entity_kind::CELL, "cell"}, {Entity_kind::SIDE, "side"}, {Entity_kind::WEDGE, "wedge"}, {Entity_kind::CORNER, "corner"}};
  for (auto const& k : ks) {
    Value r = Value::object();
    Value cnt = Value::array();
    for (Entity_type t : {O, G, B, A}) cnt.push((int) m.num_entities(k.k, t));
    Value ls = Value::array(), tc = Value::array();
    std::vector<int> all;
#define LST(q) { ls.push(ilist(m.q<Entity_type::PARALLEL_OWNED>())).push(ilist(m.q<Entity_type::PARALLEL_GHOST>())).push(ilist(m.q<Entity_type::BOUNDARY_GHOST>())).push(ilist(m.q<Entity_type::ALL>())); all = m.q<Entity_type::ALL>(); \
      tc.push((int) m.num_##q<Entity_type::PARALLEL_OWNED>()).push((int) m.num_##q<Entity_type::PARALLEL_GHOST>()).push((int) m.num_##q<Entity_type::BOUNDARY_GHOST>()).push((int) m.num_##q<Entity_type::ALL>()); }
    switch (k.k) {
      case Entity_kind::NODE: LST(nodes) break;
      case Entity_kind::EDGE: LST(edges) break;
      case Entity_kind::FACE: LST(faces) break;
      case Entity_kind::CELL: LST(cells) break;
      case Entity_kind::SIDE: LST(sides) break;
      case Entity_kind::WEDGE: LST(wedges) break;
      default: LST(corners) break;
    }
    Value ty = Value::array();
    for (int e : all) ty.push((int) m.entity_get_type(k.k, e));
    Value par = Value::array();
    for (int e : all)
      if (k.k == Entity_kind::SIDE) par.push((int) m.side_get_cell(e));
      else if (k.k == Entity_kind::WEDGE) par.push((int) m.wedge_get_cell(e));
      else if (k.k == Entity_kind::CORNER) par.push((int) m.corner_get_cell(e));
    Value gid = Value::array();
    for (int e : all) gid.push((int) m.GID(e, k.k));
    r.set("gid", gid).set("cnt", cnt).set("tcnt", tc).set("lst", ls).set("ty", ty).set("par", par);
    v.set(k.n, r);
  }
  return v;
}

static Value obs_geom(M& m, Opts const& o, bool re) {
  Value v = Value::object();
  int nc = m.num_cells(), md = m.manifold_dimension();
  bool hf = o.faces || o.sides || o.wedges || o.corners, he = o.edges || o.sides || o.wedges || o.corners;
  auto arr = []() { return Value::array(); };
  Value X = arr(), cX = arr();
  for (int n = 0; n < (int) m.num_nodes(); n++) { Point p; m.node_get_coordinates(n, &p); X.push(FP(p)); }
  for (int c = 0; c < nc; c++) { std::vector<Point> p(9); m.cell_get_coordinates(c, &p); cX.push(FPS(p)); }
  v.set("X", X).set("cX", cX);
  if (hf) {
    Value fX = arr();
    for (int f = 0; f < (int) m.num_faces(); f++) { std::vector<Point> p(9); m.face_get_coordinates(f, &p); fX.push(FPS(p)); }
    v.set("fX", fX);
  }
  Value cv = arr(), cc = arr(), cv2 = arr();
  for (int c = 0; c < nc; c++) { double x = m.cell_volume(c, re); cv.push(F(x, md)); cv2.push(fix(4*x*x/units(2*md), 100)); cc.push(FP(m.cell_centroid(c, re))); }
  v.set("cv", cv).set("cc", cc);
  if (m.space_dimension() > m.manifold_dimension()) v.set("cv2", cv2);
  if (hf) {
    int nf = m.num_faces();
    Value fa = arr(), fa2 = arr(), fc = arr(), fnn = arr(), fcn = arr();
    for (int f = 0; f < nf; f++) {
      double a = m.face_area(f, re);
      fa.push(F(a, md-1)); fa2.push(fix(4*a*a/units(2*md-2), 100)); fc.push(FP(m.face_centroid(f, re)));
      Entity_ID_List l; m.face_get_cells(f, A, &l);
      int ori = 7;
      Value x = arr();
      if (l.size()) { Point p = m.face_normal(f, re, -1, &ori); x.push(ori).push(FP(p, md-1)); }
      fnn.push(x);
      Value y = arr();
      for (int c : l) { ori = 7; Point p = m.face_normal(f, re, c, &ori); y.push(arr().push(c).push(ori).push(FP(p, md-1))); }
      fcn.push(y);
    }
    v.set("fa", fa).set("fa2", fa2).set("fc", fc).set("fn", fnn).set("fcn", fcn);
  }
  if (he) {
    int ne = m.num_edges();
    Value el = arr(), el2 = arr(), ev = arr(), ec = arr(), evn = arr();
    for (int e = 0; e < ne; e++) {
      double x = m.edge_length(e, re);
      el.push(F(x)); el2.push(fix(x*x/units(2), 100));
      int ori = 7;
      ev.push(FP(m.edge_vector(e, re)));
      ec.push(FP(m.edge_centroid(e)));
      int a, b; m.edge_get_nodes(e, &a, &b);
      Value y = arr();
      for (int n : {a, b}) { ori = 7; Point p = m.edge_vector(e, re, n, &ori); y.push(arr().push(n).push(ori).push(FP(p))); }
      evn.push(y);
    }
    v.set("el", el).set("el2", el2).set("ev", ev).set("ec", ec).set("evn", evn);
  }
  return v;
}

// Queries in no particular order: a few entities asked about again and again,
// of all kinds mixed, cached and recomputed ones as well; every answer is told
// with the question, to be compared with that of the full observation.
struct Ask {
  const char *name; int count, width;            // width: ownership classes, 0 if it takes none
  std::function<Value(int, int, bool)> f;        // entity, class, recompute
};
struct Mixer {
  unsigned long s;
  int below(int n) { s = s*6364136223846793005ul + 1442695040888963407ul; return (int) ((s >> 33) % (unsigned long) n); }
};
static Value mixed(std::vector<Ask> const& all, long seed, bool re) {
  Value v = Value::array();
  std::vector<Ask> asks;
  for (auto const& a : all) if (a.count > 0) asks.push_back(a);
  if (asks.empty()) return v;
  Mixer r = {(unsigned long) seed};
  int few = 1 + r.below(4), at = r.below(1000);
  for (int k = 0; k < 60; k++) {
    Ask const& a = asks[r.below(asks.size())];
    int i = r.below(4) == 0 ? r.below(a.count) : (at + r.below(few)) % a.count, j = a.width ? r.below(a.width) : -1;
    bool other = r.below(3) == 0;
    Value x = a.f(i, j, other ? !re : re);
    if (!other) v.push(Value::object().set("q", a.name).set("i", i).set("j", j).set("v", x));
  }
  return v;
}
static const Entity_type TYPES[] = {A, O, G, B};

static std::vector<Ask> asks_inc(M& m, Opts const& o) {
  int nc = m.num_cells(), nn = m.num_nodes(), nf = o.faces || o.sides || o.wedges || o.corners ? m.num_faces() : 0;
  int ne = o.edges || o.sides || o.wedges || o.corners ? m.num_edges() : 0;
  std::vector<Ask> a;
  auto list = [](std::function<void(Entity_ID_List *)> f) { Entity_ID_List l(3, 77); f(&l); return ilist(l); };
  a.push_back({"cn", nc, 0, [=, &m](int i, int, bool) { return list([&](Entity_ID_List *l) { m.cell_get_nodes(i, l); }); }});
  a.push_back({"ct", nc, 0, [=, &m](int i, int, bool) { return Value((int) m.cell_get_type(i)); }});
  a.push_back({"cX", nc, 0, [=, &m](int i, int, bool) { std::vector<Point> p(9); m.cell_get_coordinates(i, &p); return FPS(p); }});
  a.push_back({"X", nn, 0, [=, &m](int i, int, bool) { Point p; m.node_get_coordinates(i, &p); return FP(p); }});
  a.push_back({"cna", nc, 3, [=, &m](int i, int j, bool) { return list([&](Entity_ID_List *l) { m.cell_get_node_adj_cells(i, TYPES[j], l); }); }});
  a.push_back({"nca", nn, 3, [=, &m](int i, int j, bool) { return list([&](Entity_ID_List *l) { m.node_get_cells(i, TYPES[j], l); }); }});
  a.push_back({"cfa", nf ? nc : 0, 3, [=, &m](int i, int j, bool) { return list([&](Entity_ID_List *l) { m.cell_get_face_adj_cells(i, TYPES[j], l); }); }});
  a.push_back({"nfa", nf ? nn : 0, 3, [=, &m](int i, int j, bool) { return list([&](Entity_ID_List *l) { m.node_get_faces(i, TYPES[j], l); }); }});
  a.push_back({"fc", nf, 3, [=, &m](int i, int j, bool) { return list([&](Entity_ID_List *l) { m.face_get_cells(i, TYPES[j], l); }); }});
  a.push_back({"fn", nf, 0, [=, &m](int i, int, bool) { return list([&](Entity_ID_List *l) { m.face_get_nodes(i, l); }); }});
  a.push_back({"fX", nf, 0, [=, &m](int i, int, bool) { std::vector<Point> p(9); m.face_get_coordinates(i, &p); return FPS(p); }});
  a.push_back({"cf1", nf ? nc : 0, 0, [=, &m](int i, int, bool) { return list([&](Entity_ID_List *l) { m.cell_get_faces(i, l); }); }});
  a.push_back({"cf", nf ? nc : 0, 0, [=, &m](int i, int, bool) { return list([&](Entity_ID_List *l) { std::vector<dir_t> d; m.cell_get_faces_and_dirs(i, l, &d); }); }});
  a.push_back({"cd", nf ? nc : 0, 0, [=, &m](int i, int, bool) { Entity_ID_List l; std::vector<dir_t> d(5); m.cell_get_faces_and_dirs(i, &l, &d); return ilist(d); }});
  a.push_back({"cfo", nf ? nc : 0, 0, [=, &m](int i, int, bool) { return list([&](Entity_ID_List *l) { std::vector<dir_t> d; m.cell_get_faces_and_dirs(i, l, &d, true); }); }});
  a.push_back({"cdo", nf ? nc : 0, 0, [=, &m](int i, int, bool) { Entity_ID_List l; std::vector<dir_t> d(5); m.cell_get_faces_and_dirs(i, &l, &d, true); return ilist(d); }});
  a.push_back({"cnf", nf ? nc : 0, 0, [=, &m](int i, int, bool) { return Value((int) m.cell_get_num_faces(i)); }});
  a.push_back({"ce", ne ? nc : 0, 0, [=, &m](int i, int, bool) { return list([&](Entity_ID_List *l) { m.cell_get_edges(i, l); }); }});
  a.push_back({"en", ne, 0, [=, &m](int i, int, bool) { int a, b; m.edge_get_nodes(i, &a, &b); return Value::array().push(a).push(b); }});
  if (ne && m.manifold_dimension() > 1) {
    a.push_back({"fe", nf, 0, [=, &m](int i, int, bool) { return list([&](Entity_ID_List *l) { std::vector<dir_t> d; m.face_get_edges_and_dirs(i, l, &d); }); }});
    a.push_back({"fd", nf, 0, [=, &m](int i, int, bool) { Entity_ID_List l; std::vector<dir_t> d(5); m.face_get_edges_and_dirs(i, &l, &d); return ilist(d); }});
  }
  return a;
}

static Value told_side(M& m, int i) {
  return Value::array().push(m.side_get_cell(i)).push(m.side_get_face(i)).push(m.side_get_edge(i)).push(m.side_get_edge_use(i))
      .push(m.side_get_node(i, 0)).push(m.side_get_node(i, 1)).push(m.side_get_opposite_side(i));
}
static Value told_wedge(M& m, Opts const& o, int i) {
  return Value::array().push(m.wedge_get_side(i)).push(m.wedge_get_cell(i)).push(m.wedge_get_face(i)).push(m.wedge_get_edge(i))
      .push(m.wedge_get_node(i)).push(m.wedge_get_adjacent_wedge(i)).push(m.wedge_get_opposite_wedge(i)).push(o.corners ? m.wedge_get_corner(i) : -7);
}
static std::vector<Ask> asks_subs(M& m, Opts const& o, std::string const& k) {
  std::vector<Ask> a;
  int nc = m.num_cells(), nn = m.num_nodes();
  auto list = [](std::function<void(Entity_ID_List *)> f) { Entity_ID_List l(3, 77); f(&l); return ilist(l); };
  a.push_back({"s", k == "corners" ? 0 : (int) m.num_sides(), 0, [=, &m](int i, int, bool) { return told_side(m, i); }});
  if (k == "sides") a.push_back({"cs", nc, 0, [=, &m](int i, int, bool) { return list([&](Entity_ID_List *l) { m.cell_get_sides(i, l); }); }});
  if (k == "wedges" || k == "corners") a.push_back({"w", (int) m.num_wedges(), 0, [=, &m](int i, int, bool) { return told_wedge(m, o, i); }});
  if (k == "wedges") {
    a.push_back({"cw", nc, 0, [=, &m](int i, int, bool) { return list([&](Entity_ID_List *l) { m.cell_get_wedges(i, l); }); }});
    a.push_back({"sw", (int) m.num_sides(), 0, [=, &m](int i, int, bool) { int q = m.side_get_wedge(i, 1); return Value::array().push(m.side_get_wedge(i, 0)).push(q); }});
    if (o.corners) a.push_back({"nw", nn, 4, [=, &m](int i, int j, bool) { return list([&](Entity_ID_List *l) { m.node_get_wedges(i, TYPES[j], l); }); }});
  }
  if (k == "corners") {
    a.push_back({"k", (int) m.num_corners(), 0, [=, &m](int i, int, bool) { Entity_ID_List l(3, 77); m.corner_get_wedges(i, &l); return Value::array().push(m.corner_get_cell(i)).push(m.corner_get_node(i)).push(ilist(l)); }});
    a.push_back({"cc", nc, 0, [=, &m](int i, int, bool) { return list([&](Entity_ID_List *l) { m.cell_get_corners(i, l); }); }});
    a.push_back({"nk", nn, 4, [=, &m](int i, int j, bool) { return list([&](Entity_ID_List *l) { m.node_get_corners(i, TYPES[j], l); }); }});
  }
  return a;
}
static std::vector<Ask> asks_geom(M& m, Opts const& o) {
  bool hf = o.faces || o.sides || o.wedges || o.corners, he = o.edges || o.sides || o.wedges || o.corners;
  int nc = m.num_cells(), nf = hf ? (int) m.num_faces() : 0, ne = he ? (int) m.num_edges() : 0, md = m.manifold_dimension();
  bool sph = o.geom == JaliGeometry::Geom_type::SPHERICAL;
  std::vector<Ask> a;
  a.push_back({"cc", nc, 0, [=, &m](int i, int, bool re) { return FP(m.cell_centroid(i, re)); }});
  a.push_back({"fc", nf, 0, [=, &m](int i, int, bool re) { return FP(m.face_centroid(i, re)); }});
  if (!sph) {
    a.push_back({"cv", nc, 0, [=, &m](int i, int, bool re) { return F(m.cell_volume(i, re), md); }});
    a.push_back({"fa", nf, 0, [=, &m](int i, int, bool re) { return F(m.face_area(i, re), md-1); }});
    a.push_back({"fn", nf, 0, [=, &m](int i, int, bool re) {
      Entity_ID_List l; m.face_get_cells(i, A, &l);
      int ori = 7; Value x = Value::array();
      if (l.size()) { Point p = m.face_normal(i, re, -1, &ori); x.push(ori).push(FP(p, md-1)); }
      return x; }});
    a.push_back({"fcn", nf, 0, [=, &m](int i, int, bool re) {
      Entity_ID_List l; m.face_get_cells(i, A, &l);
      Value y = Value::array();
      for (int c : l) { int ori = 7; Point p = m.face_normal(i, re, c, &ori); y.push(Value::array().push(c).push(ori).push(FP(p, md-1))); }
      return y; }});
  }
  a.push_back({"el", ne, 0, [=, &m](int i, int, bool re) { return F(m.edge_length(i, re)); }});
  a.push_back({"ev", ne, 0, [=, &m](int i, int, bool re) { return FP(m.edge_vector(i, re)); }});
  a.push_back({"ec", ne, 0, [=, &m](int i, int, bool re) { return FP(m.edge_centroid(i)); }});
  a.push_back({"cX", nc, 0, [=, &m](int i, int, bool) { std::vector<Point> p(9); m.cell_get_coordinates(i, &p); return FPS(p); }});
  return a;
}

static double simplex(std::vector<Point> const& p, int dim) {
  if (dim == 3 && p.size() == 4) { Point a = p[1]-p[0], b = p[2]-p[0], c = p[3]-p[0];
    return ((a[1]*b[2]-a[2]*b[1])*c[0] + (a[2]*b[0]-a[0]*b[2])*c[1] + (a[0]*b[1]-a[1]*b[0])*c[2])/6.0; }
  if (dim == 2 && p.size() == 3) { Point a = p[1]-p[0], b = p[2]-p[0]; return (a[0]*b[1]-a[1]*b[0])/2.0; }
  if (dim == 1 && p.size() == 2) return p[1][0]-p[0][0];
  return 1e30;
}

static Value obs_sides(M& m) {
  Value v = Value::object();
  auto arr = []() { return Value::array(); };
  int ns = m.num_sides(), nc = m.num_cells();
  Value s = arr(), cs = arr();
  for (int i = 0; i < ns; i++)
    s.push(told_side(m, i));
  Entity_ID_List l;
  for (int c = 0; c < nc; c++) { m.cell_get_sides(c, &l); cs.push(ilist(l)); }
  v.set("s", s).set("cs", cs);
  return v;
}

static Value obs_wedges(M& m, Opts const& o) {
  Value v = Value::object();
  auto arr = []() { return Value::array(); };
  int nw = m.num_wedges(), nc = m.num_cells(), nn = m.num_nodes(), ns = m.num_sides();
  Value w = arr(), cw = arr(), sw = arr(), nw3 = arr();
  for (int i = 0; i < nw; i++)
    w.push(told_wedge(m, o, i));
  Entity_ID_List l;
  for (int c = 0; c < nc; c++) { m.cell_get_wedges(c, &l); cw.push(ilist(l)); }
  for (int s = 0; s < ns; s++) sw.push(arr().push(m.side_get_wedge(s, 0)).push(m.side_get_wedge(s, 1)));
  if (o.corners)
    for (int n = 0; n < nn; n++) {
      Value x = arr();
      for (Entity_type t : {A, O, G, B}) { m.node_get_wedges(n, t, &l); x.push(ilist(l)); }
      nw3.push(x);
    }
  v.set("w", w).set("cw", cw).set("sw", sw).set("nw", nw3).set("s", obs_sides(m)["s"]);
  return v;
}

static Value obs_corners(M& m, Opts const& o) {
  Value v = Value::object();
  auto arr = []() { return Value::array(); };
  int nk = m.num_corners(), nc = m.num_cells(), nn = m.num_nodes();
  Value k = arr(), cc = arr(), nk3 = arr(), at = arr();
  Entity_ID_List l;
  for (int i = 0; i < nk; i++) { m.corner_get_wedges(i, &l); k.push(arr().push(m.corner_get_cell(i)).push(m.corner_get_node(i)).push(ilist(l))); }
  for (int c = 0; c < nc; c++) {
    m.cell_get_corners(c, &l); cc.push(ilist(l));
    Entity_ID_List ns; m.cell_get_nodes(c, &ns);
    Value x = arr();
    for (int n : ns) x.push(arr().push(n).push(m.cell_get_corner_at_node(c, n)));
    at.push(x);
  }
  for (int n = 0; n < nn; n++) {
    Value x = arr();
    for (Entity_type t : {A, O, G, B}) { m.node_get_corners(n, t, &l); x.push(ilist(l)); }
    nk3.push(x);
  }
  v.set("k", k).set("cc", cc).set("nk", nk3).set("at", at).set("w", obs_wedges(m, o)["w"]);
  return v;
}

// Volume enclosed by, and sum of the area vectors of, the facets of a corner.
static void facets(M& m, int cn, Value *out) {
  std::vector<Point> p(9);
  int dim = m.manifold_dimension();
  double vol = 0; Value sum = Value::array();
  long npts = 0, nfac = 0;
  if (dim == 3) {
    std::vector<std::array<Entity_ID, 3>> f(7, {{999, 999, 999}}); m.corner_get_facetization(cn, &p, &f);
    double s[3] = {0, 0, 0};
    Point q = p.at(0);
    for (auto const& t : f) {
      Point a = p.at(t[0]), b = p.at(t[1]), c = p.at(t[2]);
      Point u = b-a, w = c-a; double n[3] = {(u[1]*w[2]-u[2]*w[1])/2, (u[2]*w[0]-u[0]*w[2])/2, (u[0]*w[1]-u[1]*w[0])/2};
      for (int i = 0; i < 3; i++) { s[i] += n[i]; vol += (a[i]-q[i])*n[i]/3.0; }
    }
    for (double x : s) sum.push(F(x, dim-1));
    npts = p.size(); nfac = f.size();
  } else if (dim == 2) {
    std::vector<std::array<Entity_ID, 2>> f(7, {{999, 999}}); m.corner_get_facetization(cn, &p, &f);
    double s[2] = {0, 0};
    Point q = p.at(0);
    for (auto const& t : f) {
      Point a = p.at(t[0]), b = p.at(t[1]);
      double n[2] = {b[1]-a[1], -(b[0]-a[0])};
      for (int i = 0; i < 2; i++) { s[i] += n[i]; vol += (a[i]-q[i])*n[i]/2.0; }
    }
    for (double x : s) sum.push(F(x, dim-1));
    npts = p.size(); nfac = f.size();
  } else {
    std::vector<std::array<Entity_ID, 1>> f(7, {{999}}); m.corner_get_facetization(cn, &p, &f);
    std::vector<std::array<Entity_ID, 1>> f2 = f; std::vector<Point> p2;
    m.corner_get_facetization(cn, &p2, &f2);      // the answer must not depend on what the list held
    npts = p.size(); nfac = f2.size();
    vol = std::fabs(p.at(f.at(1)[0])[0] - p.at(f.at(0)[0])[0]);
  }
  out->set("fsum", sum).set("fvol", F(vol, dim)).set("npts", npts).set("nfac", nfac).set("fpts", FPS(p));
}

static Value geom_side(M& m, int i, bool re, bool sph) {
  int dim = m.manifold_dimension(), vd = sph ? 3 : dim, ad = sph ? 2 : dim-1;
  double vs = sph ? 1000.0*3.0/(4.0*M_PI) : 1000.0;        // 1D spherical: in units of 4 pi / 3
  std::vector<Point> p(9), q(9); m.side_get_coordinates(i, &p); m.side_get_coordinates(i, &q, true);
  return Value::object().set("v", F(m.side_volume(i, re), vd, vs)).set("n", FP(m.side_facet_normal(i, re), ad, sph ? 1000.0/(4.0*M_PI) : 1000.0))
      .set("x", FPS(p)).set("pv", F(simplex(q, dim), dim)).set("px", FPS(q));
}
static Value geom_wedge(M& m, int i, bool re, bool sph) {
  int dim = m.manifold_dimension(), vd = sph ? 3 : dim, ad = sph ? 2 : dim-1;
  double vs = sph ? 1000.0*3.0/(4.0*M_PI) : 1000.0;
  std::vector<Point> p(9), q(9); m.wedge_get_coordinates(i, &p); m.wedge_get_coordinates(i, &q, true);
  return Value::object().set("v", F(m.wedge_volume(i, re), vd, vs)).set("n0", FP(m.wedge_facet_normal(i, 0, re), ad, sph ? 1000.0/(4.0*M_PI) : 1000.0))
      .set("n1", FP(m.wedge_facet_normal(i, 1, re), ad)).set("x", FPS(p)).set("pv", F(simplex(q, dim), dim)).set("px", FPS(q));
}
static Value geom_corner(M& m, int i, bool re, bool sph) {
  int dim = m.manifold_dimension(), vd = sph ? 3 : dim;
  double vs = sph ? 1000.0*3.0/(4.0*M_PI) : 1000.0;
  Value r = Value::object();
  std::vector<Point> p(9); m.corner_get_coordinates(i, &p);
  r.set("v", F(m.corner_volume(i, re), vd, vs)).set("x", FPS(p));
  facets(m, i, &r);
  return r;
}
static std::vector<Ask> asks_sub(M& m, Opts const& o, bool sph) {
  std::vector<Ask> a;
  a.push_back({"s", (int) m.num_sides(), 0, [=, &m](int i, int, bool re) { return geom_side(m, i, re, sph); }});
  if (o.wedges || o.corners) a.push_back({"w", (int) m.num_wedges(), 0, [=, &m](int i, int, bool re) { return geom_wedge(m, i, re, sph); }});
  if (o.corners) a.push_back({"k", (int) m.num_corners(), 0, [=, &m](int i, int, bool re) { return geom_corner(m, i, re, sph); }});
  return a;
}

static Value obs_sub(M& m, Opts const& o, bool re, bool sph) {
  Value v = Value::object();
  auto arr = []() { return Value::array(); };
  int ns = m.num_sides();
  Value s = arr();
  for (int i = 0; i < ns; i++) s.push(geom_side(m, i, re, sph));
  v.set("s", s).set("st", obs_sides(m)["s"]);
  if (o.wedges || o.corners) v.set("wt", obs_wedges(m, o)["w"]);
  if (o.corners) v.set("kt", obs_corners(m, o)["k"]);
  if (o.wedges || o.corners) {
    int nw = m.num_wedges();
    Value w = arr();
    for (int i = 0; i < nw; i++) w.push(geom_wedge(m, i, re, sph));
    v.set("w", w);
  }
  if (o.corners) {
    int nk = m.num_corners();
    Value k = arr();
    for (int i = 0; i < nk; i++) k.push(geom_corner(m, i, re, sph));
    v.set("k", k);
  }
  return v;
}

static Value obs_tiles(M& m, Opts const& o) {
  Value v = Value::object();
  auto arr = []() { return Value::array(); };
  Value ts = arr();
  for (auto const& t : m.tiles()) {
    Value r = Value::object();
    r.set("id", t->ID());
    static const Entity_kind ks[] = {Entity_kind::NODE, Entity_kind::EDGE, Entity_kind::FACE, Entity_kind::CELL,
                                     Entity_kind::SIDE, Entity_kind::WEDGE, Entity_kind::CORNER};
    Value cnt = arr(), tc = arr();
    for (auto k : ks) { Value x = arr(); for (Entity_type q : {O, G, A}) x.push((int) t->num_entities(k, q)); cnt.push(x); }
    Value ls = arr();
#define TLST(q) ls.push(arr().push(ilist(t->q<Entity_type::PARALLEL_OWNED>())).push(ilist(t->q<Entity_type::PARALLEL_GHOST>())).push(ilist(t->q<Entity_type::ALL>()))); \
    tc.push(arr().push((int) t->num_##q<Entity_type::PARALLEL_OWNED>()).push((int) t->num_##q<Entity_type::PARALLEL_GHOST>()).push((int) t->num_##q<Entity_type::ALL>()));
    TLST(nodes) TLST(edges) TLST(faces) TLST(cells) TLST(sides) TLST(wedges) TLST(corners)
    r.set("cnt", cnt).set("tcnt", tc).set("lst", ls);
    ts.push(r);
  }
  v.set("t", ts).set("nt", m.num_tiles());
  Value mn = arr(), me = arr(), mf = arr(), mc = arr(), ms = arr(), mw = arr(), mk = arr();
  for (int i = 0; i < (int) m.num_nodes(); i++) mn.push(m.master_tile_ID_of_node(i));
  if (o.edges || o.sides || o.wedges || o.corners) for (int i = 0; i < (int) m.num_edges(); i++) me.push(m.master_tile_ID_of_edge(i));
  if (o.faces || o.sides || o.wedges || o.corners) for (int i = 0; i < (int) m.num_faces(); i++) mf.push(m.master_tile_ID_of_face(i));
  for (int i = 0; i < (int) m.num_cells(); i++) mc.push(m.master_tile_ID_of_cell(i));
  if (o.sides || o.wedges || o.corners) for (int i = 0; i < (int) m.num_sides(); i++) ms.push(m.master_tile_ID_of_side(i));
  if (o.wedges || o.corners) for (int i = 0; i < (int) m.num_wedges(); i++) mw.push(m.master_tile_ID_of_wedge(i));
  if (o.corners) for (int i = 0; i < (int) m.num_corners(); i++) mk.push(m.master_tile_ID_of_corner(i));
  Value sc = arr(), wc = arr(), kc = arr();
  if (o.sides || o.wedges || o.corners) for (int i = 0; i < (int) m.num_sides(); i++) sc.push((int) m.side_get_cell(i));
  if (o.wedges || o.corners) for (int i = 0; i < (int) m.num_wedges(); i++) wc.push((int) m.wedge_get_cell(i));
  if (o.corners) for (int i = 0; i < (int) m.num_corners(); i++) kc.push((int) m.corner_get_cell(i));
  v.set("sc", sc).set("wc", wc).set("kc", kc);
  v.set("mn", mn).set("me", me).set("mf", mf).set("mc", mc).set("ms", ms).set("mw", mw).set("mk", mk);
  return v;
}

void run_mesh(Value const& sc, Emit const& emit) {
  Opts o = opts_of(sc["opt"]);
  std::shared_ptr<M> mesh;
  std::string exc = guarded([&]() { mesh = make_mesh(sc["mesh"], o); });
  Value v = Value::object();
  v.set("op", "make").set("exc", exc);
  emit(v);
  if (!mesh) return;
  M& m = *mesh;
  bool sph = o.geom == JaliGeometry::Geom_type::SPHERICAL;
  for (auto const& op : sc["ops"].a) {
    std::string k = op["op"].str();
    Value r = Value::object();
    r.set("op", k);
    g_fine = true;
    long mix = op.num("mix", 0);
    Value pre = Value::array();
    std::string ex = guarded([&]() {
      if (mix) pre = k == "inc" ? mixed(asks_inc(m, o), mix, false)
          : k == "geom" || k == "rgeom" ? mixed(asks_geom(m, o), mix, k == "rgeom")
          : k == "sub" || k == "rsub" ? mixed(asks_sub(m, o, sph), mix, k == "rsub")
          : mixed(asks_subs(m, o, k), mix, false);
      if (k == "inc") {
        Value v = obs_inc(m, o);
        if (sc["mesh"]["fam"].str() == "s3") {   // coordinates times the counts are whole numbers
          std::vector<int> n = sc["mesh"]["n"].ints();
          Value Xn = Value::array();
          g_fine = true;
          for (int i = 0; i < (int) m.num_nodes(); i++) {
            Point p; m.node_get_coordinates(i, &p);
            Value q = Value::array();
            for (int d = 0; d < 3; d++) { double y = p[d]*n[d]/g_unit; if (!(std::fabs(y - std::round(y)) < 1e-9)) g_fine = false; q.push((long) std::llround(y)); }
            Xn.push(q);
          }
          v.set("Xn", Xn);
        }
        r.set("o", v);
      }
      else if (k == "cls") r.set("o", obs_cls(m));
      else if (k == "geom" || k == "rgeom") {
        Value g = obs_geom(m, o, k == "rgeom");
        if (sph) {   // volumes in units of 4 pi/3, areas in units of 4 pi
          Value cv = Value::array(), fa = Value::array(), fn = Value::array(), fcn = Value::array();
          bool re = k == "rgeom";
          for (int c = 0; c < (int) m.num_cells(); c++) cv.push(F(m.cell_volume(c, re)*3/(4*M_PI), 3));
          for (int f = 0; f < (int) m.num_faces(); f++) {
            fa.push(F(m.face_area(f, re)/(4*M_PI), 2));
            int ori = 7; Point p = m.face_normal(f, re, -1, &ori);
            fn.push(Value::array().push(ori).push(FP(p, 2, 1000/(4*M_PI))));
            Entity_ID_List l; m.face_get_cells(f, A, &l);
            Value y = Value::array();
            for (int c : l) { ori = 7; Point q = m.face_normal(f, re, c, &ori); y.push(Value::array().push(c).push(ori).push(FP(q, 2, 1000/(4*M_PI)))); }
            fcn.push(y);
          }
          g.set("cv", cv).set("fa", fa).set("fn", fn).set("fcn", fcn);
        }
        r.set("o", g);
      }
      else if (k == "sides") r.set("o", obs_sides(m));
      else if (k == "wedges") r.set("o", obs_wedges(m, o));
      else if (k == "corners") r.set("o", obs_corners(m, o));
      else if (k == "sub" || k == "rsub") r.set("o", obs_sub(m, o, k == "rsub", sph));
      else if (k == "tiles") r.set("o", obs_tiles(m, o));
      else if (k == "mktile") {
        std::shared_ptr<Jali::MeshTile> t; make_tile(m, op, &t);
        r.set("o", Value::array().push(t->ID()).push(m.num_tiles()).push(m.num_tiles() > 0 && m.tiles().back().get() == t.get()));
      }
      else if (k == "move") {
        std::vector<double> x = in_units(op["x"].dbls());
        if (op.yes("raw", false)) m.node_set_coordinates(op["n"].num(), &(x[0]));
        else { Point p; p.set(x.size(), &(x[0])); m.node_set_coordinates(op["n"].num(), p); }
      }
      else if (k == "moveall") {
        for (int n = 0; n < (int) op["x"].size(); n++) { std::vector<double> x = in_units(op["x"][n].dbls()); Point p; p.set(x.size(), &(x[0])); m.node_set_coordinates(n, p); }
      }
      else if (k == "affine") {
        bool raw = op.yes("raw", false);
        int d = m.space_dimension();
        for (int n = 0; n < (int) m.num_nodes(); n++) {
          Point p; m.node_get_coordinates(n, &p);
          std::vector<double> q = in_units(op["b"].dbls());
          for (int a = 0; a < d; a++) { std::vector<double> row = op["a"][a].dbls(); for (int b = 0; b < d; b++) q[a] += row[b]*p[b]; }
          if (raw) m.node_set_coordinates(n, &(q[0]));
          else { Point t; t.set(d, &(q[0])); m.node_set_coordinates(n, t); }
        }
      }
      else if (k == "update") m.update_geometric_quantities();
      else if (k == "inside") {   // points are given in halves of a unit of 1/den
        Value res = Value::array();
        double den = op["den"].num();
        for (auto const& pt : op["pts"].a) {
          std::vector<double> d = pt.dbls(); for (double& x : d) x *= g_unit/den;
          Point p; p.set(d.size(), &(d[0]));
          Value in = Value::array();
          for (int c = 0; c < (int) m.num_cells(); c++) if (m.point_in_cell(p, c)) in.push(c);
          res.push(in);
        }
        r.set("o", res);
      }
      else r.set("o", "?");
    });
    r.set("exc", ex).set("fine", g_fine);
    if (mix) r.set("pre", pre);
    emit(r);
  }
}

}  // namespace vh

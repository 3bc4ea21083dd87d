// A Jali::Mesh whose topology, coordinates, ownership classes, labelled sets
// and fields are given by the scenario (i.e. by the specification), so that
// the framework-independent base class, tiles, sets and state can be driven
// with meshes the built-in generator cannot make.
#ifndef VERIF_HMESH_HH
#define VERIF_HMESH_HH
#include <algorithm>
#include <array>
#include <cstring>
#include <map>
#include <memory>
#include <string>
#include <vector>

#include "json.hh"
#include "Mesh.hh"
#include "MeshTile.hh"
#include "MeshSet.hh"
#include "LabeledSetRegion.hh"

namespace vh {

using Jali::Cell_type;
using Jali::Entity_ID;
using Jali::Entity_ID_List;
using Jali::Entity_kind;
using Jali::Entity_type;
using Jali::Partitioner_type;
using Jali::dir_t;
using JaliGeometry::Point;

struct Opts {
  bool faces = true, edges = false, sides = false, wedges = false, corners = false;
  int tiles = 0, halo = 0;
  Partitioner_type part = Partitioner_type::INDEX;
  JaliGeometry::Geom_type geom = JaliGeometry::Geom_type::CARTESIAN;
  js::Value mk;               // tiles to make on the finished mesh
};

struct Field {
  std::string name, type;     // type: INT, DOUBLE, VECTOR, TENSOR
  Entity_kind kind;
  int ncomp;
  std::vector<double> data;   // ncomp per entity
};

class HarnessMesh : public Jali::Mesh {
 public:
  HarnessMesh(js::Value const& m, Opts const& o,
              JaliGeometry::GeometricModelPtr gm = nullptr)
      : Jali::Mesh(o.faces, o.edges, o.sides, o.wedges, o.corners, o.tiles, o.halo,
                   1, false, o.part, o.geom, MPI_COMM_SELF) {
    int dim = m["dim"].num(), sdim = m["sdim"].num();
    set_space_dimension(sdim);
    set_manifold_dimension(dim);
    if (gm) set_geometric_model(gm);
    double unit = std::ldexp(1.0, m.num("ue", 0));
    for (auto const& x : m["X"].a) { X_.push_back(x.dbls()); for (double& y : X_.back()) y *= unit; }
    ct_ = m["ct"].ints();
    for (auto const& x : m["cn"].a) cn_.push_back(x.ints());
    for (auto const& x : m["cf"].a) cf_.push_back(x.ints());
    for (auto const& x : m["cd"].a) cd_.push_back(dirs(x));
    for (auto const& x : m["ce"].a) ce_.push_back(x.ints());
    for (auto const& x : m["fn"].a) fn_.push_back(x.ints());
    for (auto const& x : m["fe"].a) fe_.push_back(x.ints());
    for (auto const& x : m["fd"].a) fd_.push_back(dirs(x));
    for (auto const& x : m["en"].a) en_.push_back(x.ints());
    classes(m["nt"].ints(), &nodeids_owned_, &nodeids_ghost_, nullptr, &nodeids_all_);
    if (faces_requested)
      classes(m["ft"].ints(), &faceids_owned_, &faceids_ghost_, nullptr, &faceids_all_);
    if (edges_requested)
      classes(m["et"].ints(), &edgeids_owned_, &edgeids_ghost_, nullptr, &edgeids_all_);
    tp_ = m["tp"].ints();
    nt_ = m["nt"].ints(); ft_ = m["ft"].ints();
    classes(tp_, &cellids_owned_, &cellids_ghost_, &cellids_boundary_ghost_, &cellids_all_);
    int nn = X_.size(), nf = fn_.size();
    nc_.resize(nn); nf_.resize(nn); fc_.resize(nf);
    for (int c = 0; c < (int) cn_.size(); c++) {
      for (int n : cn_[c]) nc_[n].push_back(c);
      for (int f : cf_[c]) fc_[f].push_back(c);
    }
    for (int f = 0; f < nf; f++) for (int n : fn_[f]) nf_[n].push_back(f);
    if (m.has("labels"))
      for (auto const& l : m["labels"].a)
        labels_[std::make_pair(l["label"].str(), (int) l["kind"].num())] = l["ents"].ints();
    cache_extra_variables();
    if (o.tiles) build_tiles();
    if (gm && m.yes("initsets", true)) init_sets_from_geometric_model();
  }

  Cell_type cell_get_type(const Entity_ID c) const { return static_cast<Cell_type>(ct_[c]); }
  Entity_ID GID(const Entity_ID lid, const Entity_kind) const { return lid; }
  void cell_get_nodes(const Entity_ID c, Entity_ID_List *l) const { *l = cn_[c]; }
  void face_get_nodes(const Entity_ID f, Entity_ID_List *l) const { *l = fn_[f]; }
  void node_get_cells(const Entity_ID n, const Entity_type t, Entity_ID_List *l) const { filt(nc_[n], tp_, t, l); }
  void node_get_faces(const Entity_ID n, const Entity_type t, Entity_ID_List *l) const { filt(nf_[n], ft_, t, l); }
  void node_get_cell_faces(const Entity_ID n, const Entity_ID c, const Entity_type t, Entity_ID_List *l) const {
    Entity_ID_List r;
    for (int f : cf_[c]) if (has(fn_[f], n)) r.push_back(f);
    filt(r, ft_, t, l);
  }
  void cell_get_face_adj_cells(const Entity_ID c, const Entity_type t, Entity_ID_List *l) const {
    Entity_ID_List r;
    for (int f : cf_[c]) for (int d : fc_[f]) if (d != c && !has(r, d)) r.push_back(d);
    filt(r, tp_, t, l);
  }
  void cell_get_node_adj_cells(const Entity_ID c, const Entity_type t, Entity_ID_List *l) const {
    Entity_ID_List r;
    for (int n : cn_[c]) for (int d : nc_[n]) if (d != c && !has(r, d)) r.push_back(d);
    filt(r, tp_, t, l);
  }
  using Jali::Mesh::node_get_coordinates;
  void node_get_coordinates(const Entity_ID n, Point *p) const { p->set(X_[n].size(), &(X_[n][0])); }
  void face_get_coordinates(const Entity_ID f, std::vector<Point> *l) const { pts(fn_[f], l); }
  void cell_get_coordinates(const Entity_ID c, std::vector<Point> *l) const { pts(cn_[c], l); }
  void node_set_coordinates(const Entity_ID n, const Point p) { for (int i = 0; i < (int) X_[n].size(); i++) X_[n][i] = p[i]; }
  void node_set_coordinates(const Entity_ID n, const double *p) { for (int i = 0; i < (int) X_[n].size(); i++) X_[n][i] = p[i]; }

  // fields (the mesh side of State import/export)
  std::vector<Field> offered;                     // what the mesh has
  mutable std::vector<Field> stored;              // what the state exported

 protected:
  void cell_get_faces_and_dirs_internal(const Entity_ID c, Entity_ID_List *l, std::vector<dir_t> *d, const bool) const {
    *l = cf_[c]; if (d) *d = cd_[c];
  }
  void face_get_cells_internal(const Entity_ID f, const Entity_type t, Entity_ID_List *l) const { filt(fc_[f], tp_, t, l); }
  void face_get_edges_and_dirs_internal(const Entity_ID f, Entity_ID_List *l, std::vector<dir_t> *d, const bool) const {
    *l = fe_[f]; if (d) *d = fd_[f];
  }
  void cell_get_edges_internal(const Entity_ID c, Entity_ID_List *l) const { *l = ce_[c]; }
  void cell_2D_get_edges_and_dirs_internal(const Entity_ID c, Entity_ID_List *l, std::vector<dir_t> *d) const { *l = ce_[c]; *d = cd_[c]; }
  void edge_get_nodes_internal(const Entity_ID e, Entity_ID *a, Entity_ID *b) const { *a = en_[e][0]; *b = en_[e][1]; }
  void get_labeled_set_entities(const JaliGeometry::LabeledSetRegionPtr r, const Entity_kind k,
                                Entity_ID_List *o, Entity_ID_List *g) const {
    o->clear(); g->clear();
    auto it = labels_.find(std::make_pair(r->label(), (int) k));
    if (it == labels_.end()) return;
    for (int e : it->second) {
      Entity_type t = entity_get_type(k, e);
      if (t == Entity_type::PARALLEL_OWNED) o->push_back(e);
      else if (t == Entity_type::PARALLEL_GHOST) g->push_back(e);
    }
  }

  void get_field_info(Entity_kind k, int *num, std::vector<std::string> *names, std::vector<std::string> *types) const {
    *num = 0; names->clear(); types->clear();
    for (auto const& f : offered) if (f.kind == k) { (*num)++; names->push_back(f.name); types->push_back(f.type); }
  }
  bool get_field(std::string n, Entity_kind k, int *d) const { return getf(n, k, "INT", [&](int i, int, double v) { d[i] = (int) v; }); }
  bool get_field(std::string n, Entity_kind k, double *d) const { return getf(n, k, "DOUBLE", [&](int i, int, double v) { d[i] = v; }); }
  bool get_field(std::string n, Entity_kind k, std::array<double, (std::size_t)2> *d) const { return getf(n, k, 2, d); }
  bool get_field(std::string n, Entity_kind k, std::array<double, (std::size_t)3> *d) const { return getf(n, k, 3, d); }
  bool get_field(std::string n, Entity_kind k, std::array<double, (std::size_t)6> *d) const { return getf(n, k, 6, d); }
  bool store_field(std::string n, Entity_kind k, int *d) { return putf(n, k, "INT", 1, [&](int i, int) { return (double) d[i]; }); }
  bool store_field(std::string n, Entity_kind k, double *d) { return putf(n, k, "DOUBLE", 1, [&](int i, int) { return d[i]; }); }
  bool store_field(std::string n, Entity_kind k, std::array<double, (std::size_t)2> *d) { return putf(n, k, "ARR2", 2, [&](int i, int j) { return d[i][j]; }); }
  bool store_field(std::string n, Entity_kind k, std::array<double, (std::size_t)3> *d) { return putf(n, k, "ARR3", 3, [&](int i, int j) { return d[i][j]; }); }
  bool store_field(std::string n, Entity_kind k, std::array<double, (std::size_t)6> *d) { return putf(n, k, "ARR6", 6, [&](int i, int j) { return d[i][j]; }); }

 private:
  template<class F> bool getf(std::string const& n, Entity_kind k, std::string const& t, F put) const {
    for (auto const& f : offered)
      if (f.kind == k && f.name == n && f.type == t) {
        for (std::size_t i = 0; i < f.data.size(); i++) put(i, 0, f.data[i]);
        return true;
      }
    return false;
  }
  template<class A> bool getf(std::string const& n, Entity_kind k, int nc, A *d) const {
    for (auto const& f : offered)
      if (f.kind == k && f.name == n && f.ncomp == nc && f.type != "INT" && f.type != "DOUBLE") {
        for (std::size_t i = 0; i < f.data.size(); i++) d[i/nc][i%nc] = f.data[i];
        return true;
      }
    return false;
  }
  template<class F> bool putf(std::string const& n, Entity_kind k, std::string const& t, int nc, F get) {
    Field f; f.name = n; f.type = t; f.kind = k; f.ncomp = nc;
    int ne = num_entities(k, Entity_type::ALL);
    for (int i = 0; i < ne; i++) for (int j = 0; j < nc; j++) f.data.push_back(get(i, j));
    stored.push_back(f);
    return true;
  }
  static std::vector<dir_t> dirs(js::Value const& v) { std::vector<dir_t> r; for (int i : v.ints()) r.push_back(i); return r; }
  static bool has(Entity_ID_List const& l, int x) { return std::find(l.begin(), l.end(), x) != l.end(); }
  static void filt(Entity_ID_List const& in, std::vector<int> const& cls, Entity_type t, Entity_ID_List *out) {
    Entity_ID_List r;
    for (int e : in) if (t == Entity_type::ALL || cls[e] == static_cast<int>(t)) r.push_back(e);
    *out = r;
  }
  void pts(Entity_ID_List const& l, std::vector<Point> *out) const {
    out->clear();
    for (int n : l) { Point p; node_get_coordinates(n, &p); out->push_back(p); }
  }
  static void classes(std::vector<int> const& t, std::vector<int> *o, std::vector<int> *g, std::vector<int> *b, std::vector<int> *a) {
    o->clear(); g->clear(); if (b) b->clear();
    for (int i = 0; i < (int) t.size(); i++) {
      if (t[i] == 1) o->push_back(i);
      else if (t[i] == 2) g->push_back(i);
      else if (b) b->push_back(i);
    }
    *a = *o; a->insert(a->end(), g->begin(), g->end());
    if (b) a->insert(a->end(), b->begin(), b->end());
  }
  std::vector<std::vector<double>> X_;
  std::vector<int> ct_, tp_, nt_, ft_;
  std::vector<std::vector<int>> cn_, cf_, ce_, fn_, fe_, en_, nc_, nf_, fc_;
  std::vector<std::vector<dir_t>> cd_, fd_;
  std::map<std::pair<std::string, int>, std::vector<int>> labels_;
};

}  // namespace vh
#endif

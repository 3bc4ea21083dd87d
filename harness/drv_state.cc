// Drives Jali::State: the registry of vectors, the vectors and what they
// share, materials, multi-material vectors, and fields of the mesh; records
// the whole projection after every step.
#include <algorithm>
#include <map>
#include <sstream>
#include "drv.hh"
#include "JaliState.h"
#include "JaliStateVector.h"

using js::Value;
namespace vh {
using Jali::Mesh; using Jali::MeshTile; using Jali::State; using Jali::StateVectorBase;
using Jali::UniStateVector; using Jali::MultiStateVector; using Jali::StateVector_type; using Jali::Data_layout;
typedef std::array<double, 2> A2; typedef std::array<double, 3> A3; typedef std::array<double, 6> A6;
static const Entity_type A = Entity_type::ALL;

// values: a number, or a list of them. The number stands for one that fills
// its type: of all digits, either sign and any magnitude (but for itself, where
// text is looked at).
static thread_local bool g_plain = false;
static const int LAST = 200;
static int as_int(long v) { return g_plain ? (int) v : v > LAST || v < 0 ? -1 : (int) ((v % 2 ? 1 : -1)*v*10000019); }
static double as_double(long v) {
  if (g_plain || v == 0) return v;
  switch (v % 4) { case 0: return v*0.1; case 1: return -v/3.0e20; case 2: return v*1.25e9 + 0.5; default: return v*1.7e100; }
}
static Value num(double d) {
  if (g_plain) return d == (double) (long) d && std::abs(d) < 1e9 ? Value((long) d) : Value(-999999);
  for (long v = 0; v <= LAST; v++) if (as_double(v) == d) return Value(v);
  return Value(-999999);
}
static Value enc(int x) {
  if (g_plain) return num(x);
  for (long v = 0; v <= LAST; v++) if (as_int(v) == x) return Value(v);
  return Value(-999999);
}
static Value enc(double x) { return num(x); }
template<size_t N> Value enc(std::array<double, N> const& x) { Value v = Value::array(); for (double d : x) v.push(num(d)); return v; }
static void dec(Value const& v, int *x) { *x = as_int(v.num()); }
static void dec(Value const& v, double *x) { *x = as_double(v.num()); }
template<size_t N> void dec(Value const& v, std::array<double, N> *x) { for (size_t i = 0; i < N; i++) (*x)[i] = as_double(v[(int) i].num()); }
template<class T> T decode(Value const& v) { T x; dec(v, &x); return x; }
template<class T> std::vector<T> decodes(Value const& v) { std::vector<T> r; for (auto const& e : v.a) r.push_back(decode<T>(e)); return r; }

struct Run {
  std::shared_ptr<Mesh> m[2];
  std::shared_ptr<State> st;
  std::vector<std::string> names;              // material names to look up
  std::shared_ptr<Mesh> dom(int d, Mesh*) { return m[d < 0 ? 1 : 0]; }
  std::shared_ptr<MeshTile> dom(int d, MeshTile*) { return m[0]->tiles().at(d - 1); }
  int domno(std::shared_ptr<Mesh> const& p) { return p == m[0] ? 0 : p == m[1] ? -1 : -2; }
  int domno(std::shared_ptr<MeshTile> const& p) {
    for (size_t i = 0; i < m[0]->tiles().size(); i++) if (m[0]->tiles()[i] == p) return i + 1;
    return -2;
  }
};

// A vector the scenario can refer to.
struct Handle {
  StateVectorBase *b = nullptr;
  virtual ~Handle() {}
  virtual void project(Run& r, Value *v) = 0;
  virtual void write(Value const& op) = 0;
  virtual Handle *copy() = 0;
  virtual void assign(Handle& from) = 0;
  virtual int add_copy(Run& r, std::vector<std::unique_ptr<Handle>>& h) = 0;
  virtual void show(std::ostream& os) { b->print(os); }
};
typedef std::vector<std::unique_ptr<Handle>> Handles;

template<class T, class D> struct UniH : Handle {
  typedef UniStateVector<T, D> V;
  V *p; std::shared_ptr<V> keep;
  explicit UniH(V *q) : p(q) { b = q; }
  explicit UniH(std::shared_ptr<V> const& q) : p(q.get()), keep(q) { b = p; }
  void project(Run& r, Value *v) {
    V const& c = *p;
    Value d = Value::array(); bool same = true;
    int n = c.size();
    for (int i = 0; i < n; i++) d.push(enc(c[i]));
    typename V::const_iterator it = c.cbegin();
    int k = 0;
    for (; it != c.cend(); ++it, ++k) same = same && k < n && *it == (*p)[k];
    same = same && k == n && (int) (p->end() - p->begin()) == n;
    if (n) same = same && p->get_raw_data() == &(*p)[0] && c.get_raw_data() == &(*p)[0] && c.get_raw_data()[n-1] == c[n-1] && &*p->begin() == &(*p)[0];
    v->set("mult", "uni").set("dom", r.domno(c.domain())).set("data", d).set("views", same).set("typed", p->data_type() == typeid(T));
    Jali::UniStateVectorBase<D>& ub = *p;
    v->set("bsize", (long) ub.size());
  }
  void write(Value const& op) {
    std::string o = op["op"].str();
    if (o == "resize") { if (op.has("val")) p->resize(op["n"].num(), decode<T>(op["val"])); else if (op.yes("base", false)) static_cast<Jali::UniStateVectorBase<D>*>(p)->resize(op["n"].num()); else p->resize(op["n"].num()); return; }
    if (o == "clear") { p->clear(); return; }
    if (!p->size()) return;
    int i = op["i"].num() % (int) p->size(); std::string how = op["how"].str();
    T x = decode<T>(op["val"]);
    if (how == "raw") p->get_raw_data()[i] = x; else if (how == "iter") *(p->begin() + i) = x; else (*p)[i] = x;
  }
  Handle *copy() { return new UniH(std::make_shared<V>(*p)); }
  void assign(Handle& f) { *p = *dynamic_cast<UniH&>(f).p; }
  void show(std::ostream& os) { os << *p; }
  template<class DD> static UniStateVector<T, DD> *put(Run&, UniStateVector<T, DD>&, MeshTile*) { throw std::runtime_error("copy of a tile vector"); }
  template<class DD> static UniStateVector<T, DD> *put(Run& r, UniStateVector<T, DD>& v, Mesh*) { return &(r.st->add<T, Mesh, UniStateVector>(v)); }
  int add_copy(Run& r, Handles& h) {
    V *q = put(r, *p, (D*) nullptr);
    for (size_t i = 0; i < h.size(); i++) if (h[i]->b == q) return i;
    h.emplace_back(new UniH(q)); return h.size() - 1;
  }
};

// arrays have no conversion from 0, which the const accessor needs
template<class T> struct ConstRead { template<class V> static T at(V const& c, V&, int i, int j, Data_layout l) { return c(i, j, l); } };
template<size_t N> struct ConstRead<std::array<double, N>> {
  template<class V> static std::array<double, N> at(V const&, V& p, int i, int j, Data_layout l) {
    std::array<double, N> x; x.fill(0);
    guarded([&]() { x = p(i, j, l); });
    return x;
  }
};
template<class T, class D> struct MultiH : Handle {
  typedef MultiStateVector<T, D> V;
  V *p; std::shared_ptr<V> keep;
  explicit MultiH(V *q) : p(q) { b = q; }
  explicit MultiH(std::shared_ptr<V> const& q) : p(q.get()), keep(q) { b = p; }
  void project(Run& r, Value *v) {
    V const& c = *p;
    int n = c.size();
    Value d = Value::array(), sz = Value::array(), at = Value::array(); bool same = true, sized = n == r.st->num_materials();
    for (int m = 0; m < n; m++) {
      Value l = Value::array();
      std::vector<T> const& md = c.get_matdata(m);
      for (auto const& x : md) l.push(enc(x));
      same = same && (int) (c.cend(m) - c.cbegin(m)) == (int) md.size() && (int) (p->end(m) - p->begin(m)) == (int) md.size() && &p->get_matdata(m) == &md;
      if (md.size()) same = same && &*p->begin(m) == &md[0] && p->get_raw_data(m) == &md[0] && c.get_raw_data(m) == &md[0];
      d.push(std::move(l)); sz.push((long) c.size(m));
      if (sized && (int) c.size(m) != r.st->num_material_cells(m)) sized = false;
    }
    same = same && (int) p->get_data()->size() == n;
    Value thr = Value::array();
    if (sized) {
      int nc = r.m[0]->num_entities(Entity_kind::CELL, A);
      for (int m = 0; m < n; m++) {
        Value row = Value::array(), tr = Value::array();
        for (int i = 0; i < nc; i++) {
          T x = ConstRead<T>::at(c, *p, m, i, Data_layout::MATERIAL_CENTRIC), y = ConstRead<T>::at(c, *p, i, m, Data_layout::CELL_CENTRIC);
          row.push(x == y ? enc(x) : Value(-888888));
          bool t1 = guarded([&]() { (void) (*p)(m, i); }) != "", t2 = guarded([&]() { (void) (*p)(i, m, Data_layout::CELL_CENTRIC); }) != "";
          tr.push(t1 == t2 ? Value((int) t1) : Value(2));
        }
        at.push(std::move(row)); thr.push(std::move(tr));
      }
    }
    v->set("mult", "multi").set("dom", r.domno(c.domain())).set("data", std::move(d)).set("size2", std::move(sz)).set("at", std::move(at)).set("refuses", std::move(thr)).set("views", same).set("fits", sized).set("typed", p->data_type() == typeid(T));
    Jali::MultiStateVectorBase<D>& ub = *p;
    v->set("bsize", (long) ub.size());
  }
  void write(Value const& op) {
    std::string o = op["op"].str();
    int m = op.num("m", 0);
    if (o == "mresize") { if (op.has("val")) p->resize(m, op["n"].num(), decode<T>(op["val"])); else p->resize(m, op["n"].num()); return; }
    if (o == "mclear") { if (op.has("m")) p->clear(m); else p->clear(); return; }
    if (o == "assignv") { p->assign(decode<T>(op["val"])); return; }
    if (o == "assignd") { std::vector<std::vector<T>> rows; std::vector<T const*> pp; unroll(op["data"], &rows, &pp); p->assign(op["lay"].str() == "cell" ? Data_layout::CELL_CENTRIC : Data_layout::MATERIAL_CENTRIC, pp.data()); return; }
    int c = op["c"].num(); std::string how = op["how"].str();
    T x = decode<T>(op["val"]);
    if (how == "cell") (*p)(c, m, Data_layout::CELL_CENTRIC) = x;
    else if (how == "matd") p->get_matdata(m).at(op["pos"].num()) = x;
    else (*p)(m, c) = x;
  }
  static void unroll(Value const& v, std::vector<std::vector<T>> *rows, std::vector<T const*> *pp) {
    for (auto const& r : v.a) rows->push_back(decodes<T>(r));
    for (auto const& r : *rows) pp->push_back(r.data());
  }
  Handle *copy() { return new MultiH(std::make_shared<V>(*p)); }
  void assign(Handle& f) { *p = *dynamic_cast<MultiH&>(f).p; }
  int add_copy(Run&, Handles&) { throw std::runtime_error("copy of a multi vector"); }
};

// What a printed text says of each single-valued vector it shows.
static Value shown(std::string const& text) {
  Value all = Value::array();
  const std::string mark = "Vector \"";
  for (size_t at = text.find(mark), next; at != std::string::npos; at = next) {
    next = text.find(mark, at + 1);
    std::string s = text.substr(at, next == std::string::npos ? next : next - at), rest, line;
    std::istringstream ls(s);
    while (std::getline(ls, line)) if (line.find("not implemented") == std::string::npos) rest += line + "\n";
    Value v = Value::object(), vals = Value::array();
    size_t q = rest.find('"'), e = rest.rfind('"'), k = rest.find("Entity_kind::"), n = rest.find("elements");
    v.set("name", rest.substr(q + 1, e - q - 1));
    v.set("kind", k == std::string::npos ? std::string("?") : rest.substr(k, rest.find_first_of(" \n", k) - k));
    size_t from = n == std::string::npos ? n : rest.find_last_of(":\n", n);
    v.set("n", from == std::string::npos ? -1 : std::atoi(rest.c_str() + from + 1));
    if (n != std::string::npos) {
      std::istringstream ts(rest.substr(n + 8));
      std::string t;
      while (ts >> t) { char *end; double d = std::strtod(t.c_str(), &end); vals.push(*end ? Value(-999999) : num(d)); }
    }
    all.push(v.set("vals", vals));
  }
  return all;
}
template<class T> static Value spelled(int from, int to) {       // the printed name of each value of an enumeration
  Value v = Value::array();
  for (int i = from; i <= to; i++) { std::ostringstream o; o << static_cast<T>(i); std::string s; std::istringstream(o.str()) >> s; v.push(s); }
  return v;
}

struct Query { std::string v, name, mult, dt; int dom, kind, type; };
template<class T, class D> struct Typed {
  typedef std::shared_ptr<D> Dom;
  static Dom dom(Run& r, int d) { return r.dom(d, (D*) nullptr); }
  static Handle *adopt(UniStateVector<T, D>& v) { return new UniH<T, D>(&v); }
  static Handle *adopt(MultiStateVector<T, D>& v) { return new MultiH<T, D>(&v); }
  // returns the vector the registry answered with, wrapped
  static Handle *add(Run& r, Value const& op, Entity_kind k, Entity_type t) {
    std::string n = op["name"].str(), how = op["how"].str();
    Dom d = dom(r, op["dom"].num());
    if (op["mult"].str() == "uni") {
      if (how == "val") return adopt(r.st->template add<T, D, UniStateVector>(n, d, k, t, decode<T>(op["val"])));
      if (how == "data") { std::vector<T> x = decodes<T>(op["data"]); x.resize(x.size() + 1); return adopt(r.st->template add<T, D>(n, d, k, t, (T const *) x.data())); }
      return adopt(r.st->template add<T, D, UniStateVector>(n, d, k, t));
    }
    if (how == "val") return adopt(r.st->template add<T, D, MultiStateVector>(n, d, k, t, decode<T>(op["val"])));
    if (how == "data") {
      std::vector<std::vector<T>> rows; std::vector<T const*> pp; MultiH<T, D>::unroll(op["data"], &rows, &pp); pp.push_back(nullptr);
      return adopt(r.st->template add<T, D>(n, d, k, t, op["lay"].str() == "cell" ? Data_layout::CELL_CENTRIC : Data_layout::MATERIAL_CENTRIC, (T const * const *) pp.data()));
    }
    return adopt(r.st->template add<T, D, MultiStateVector>(n, d, k, t));
  }
  static Handle *alone(Run& r, Value const& op, Entity_kind k, Entity_type t) {
    std::string n = op["name"].str(), how = op["how"].str();
    Dom d = dom(r, op["dom"].num());
    std::shared_ptr<State> s = op["mult"].str() == "multi" || op.yes("state", false) ? r.st : nullptr;
    if (op["mult"].str() == "uni") {
      typedef UniStateVector<T, D> V;
      if (how == "val") return new UniH<T, D>(std::make_shared<V>(n, d, s, k, t, decode<T>(op["val"])));
      if (how == "data") { std::vector<T> x = decodes<T>(op["data"]); x.resize(x.size() + 1); return new UniH<T, D>(std::make_shared<V>(n, d, s, k, t, (T const *) x.data())); }
      return new UniH<T, D>(std::make_shared<V>(n, d, s, k, t));
    }
    typedef MultiStateVector<T, D> V;
    if (how == "val") return new MultiH<T, D>(std::make_shared<V>(n, d, s, k, t, decode<T>(op["val"])));
    if (how == "data") {
      std::vector<std::vector<T>> rows; std::vector<T const*> pp; MultiH<T, D>::unroll(op["data"], &rows, &pp); pp.push_back(nullptr);
      return new MultiH<T, D>(std::make_shared<V>(n, d, s, k, t, op["lay"].str() == "cell" ? Data_layout::CELL_CENTRIC : Data_layout::MATERIAL_CENTRIC, (T const * const *) pp.data()));
    }
    return new MultiH<T, D>(std::make_shared<V>(n, d, s, k, t));
  }
  template<template<class, class> class VT> static std::shared_ptr<StateVectorBase> got(Run& r, Query const& q, Entity_kind k, Entity_type t, bool *cst) {
    std::shared_ptr<VT<T, D>> p; std::shared_ptr<VT<T, D> const> cp;
    State const& cs = *r.st;
    bool f = q.v == "get" ? r.st->get(q.name, dom(r, q.dom), k, t, &p) : r.st->get(q.name, dom(r, q.dom), &p);
    bool g = q.v == "get" ? cs.get(q.name, dom(r, q.dom), k, t, &cp) : cs.get(q.name, dom(r, q.dom), &cp);
    *cst = f == g && p == cp && f == (bool) p;
    return p;
  }
  // index found, or -1; sets *cst to whether the const variant agrees
  static int find(Run& r, Query const& q, bool *cst) {
    State& s = *r.st; State const& c = s;
    Entity_kind k = static_cast<Entity_kind>(q.kind); Entity_type t = static_cast<Entity_type>(q.type);
    bool uni = q.mult == "uni";
    State::iterator it; State::const_iterator ci;
    Dom d = dom(r, q.dom);
    if (q.v == "get" || q.v == "getd") {
      std::shared_ptr<StateVectorBase> p = uni ? got<UniStateVector>(r, q, k, t, cst) : got<MultiStateVector>(r, q, k, t, cst);
      int n = 0;
      for (auto const& x : s) { if (x == p) return n; n++; }
      return p ? -3 : -1;
    }
    if (q.v == "name") { it = s.find(q.name, k, t); ci = c.find(q.name, k, t); }
    else if (q.v == "dom") { it = s.find(q.name, d, k, t); ci = c.find(q.name, d, k, t); }
    else if (q.v == "mult") {
      if (uni) { it = s.template find<D, StateVector_type::UNIVAL>(q.name, d, k, t); ci = c.template find<D, StateVector_type::UNIVAL>(q.name, d, k, t); }
      else { it = s.template find<D, StateVector_type::MULTIVAL>(q.name, d, k, t); ci = c.template find<D, StateVector_type::MULTIVAL>(q.name, d, k, t); }
    } else if (q.v == "enum") {
      if (uni) { it = s.template find<T, D, StateVector_type::UNIVAL>(q.name, d, k, t); ci = c.template find<T, D, StateVector_type::UNIVAL>(q.name, d, k, t); }
      else { it = s.template find<T, D, StateVector_type::MULTIVAL>(q.name, d, k, t); ci = c.template find<T, D, StateVector_type::MULTIVAL>(q.name, d, k, t); }
    } else {
      if (uni) { it = s.template find<T, D, UniStateVector>(q.name, d, k, t); ci = c.template find<T, D, UniStateVector>(q.name, d, k, t); }
      else { it = s.template find<T, D, MultiStateVector>(q.name, d, k, t); ci = c.template find<T, D, MultiStateVector>(q.name, d, k, t); }
    }
    int i = it == s.end() ? -1 : (int) (it - s.begin()), j = ci == c.cend() ? -1 : (int) (ci - c.cbegin());
    *cst = i == j;
    return i;
  }
  // retrieval by value into a vector of the caller's
  template<template<class, class> class VT> static bool fetch(Run& r, Value const& op, VT<T, D> *v, Entity_kind k, Entity_type t) {
    return op["op"].str() == "fetch" ? r.st->get(op["name"].str(), dom(r, op["dom"].num()), k, t, v) : r.st->get(op["name"].str(), v);
  }
};
#define DISPATCH2(T, tile, X) { if (tile) { typedef Typed<T, MeshTile> Y; X; } else { typedef Typed<T, Mesh> Y; X; } }
#define DISPATCH(dt, tile, X) { if (dt == "int") DISPATCH2(int, tile, X) else if (dt == "double") DISPATCH2(double, tile, X) \
  else if (dt == "arr2") DISPATCH2(A2, tile, X) else if (dt == "arr3") DISPATCH2(A3, tile, X) else if (dt == "arr6") DISPATCH2(A6, tile, X) else throw std::runtime_error("type " + dt); }

struct StateRun : Run {
  Handles h;
  int handle(Handle *x) {
    for (size_t i = 0; i < h.size(); i++) if (h[i]->b == x->b) { delete x; return i; }
    h.emplace_back(x); return h.size() - 1;
  }
  int of(StateVectorBase *b) {
    for (size_t i = 0; i < h.size(); i++) if (h[i]->b == b) return i;
    for (int tile = 0; tile < 2; tile++) { Handle *x = wrap(b, tile); if (x) { h.emplace_back(x); return h.size() - 1; } }
    return -3;
  }
  template<class T, class D> static Handle *wrap1(StateVectorBase *b) {
    if (auto *p = dynamic_cast<UniStateVector<T, D>*>(b)) return new UniH<T, D>(p);
    return nullptr;
  }
  template<class D> static Handle *wrap2(StateVectorBase *b) {
    Handle *x;
    if ((x = wrap1<int, D>(b)) || (x = wrap1<double, D>(b)) || (x = wrap1<A2, D>(b)) || (x = wrap1<A3, D>(b)) || (x = wrap1<A6, D>(b))) return x;
    return nullptr;
  }
  static Handle *wrap(StateVectorBase *b, bool tile) { return tile ? wrap2<MeshTile>(b) : wrap2<Mesh>(b); }
  static std::string dtype(StateVectorBase *b) {
    std::type_info const& t = b->data_type();
    return t == typeid(int) ? "int" : t == typeid(double) ? "double" : t == typeid(A2) ? "arr2" : t == typeid(A3) ? "arr3" : t == typeid(A6) ? "arr6" : "?";
  }
  Value observe(Value const& sc) {
    Value v = Value::object();
    State const& cs = *st;
    Value reg = Value::array(), nm = Value::array();
    bool same = true; int n = 0;
    for (State::iterator it = st->begin(); it != st->end(); ++it, ++n) { reg.push(of(it->get())); same = same && n < st->size() && (*st)[n] == *it && cs[n] == *it && *(cs.cbegin() + n) == *it; }
    same = same && n == cs.size() && (int) (cs.cend() - cs.cbegin()) == n;
    for (State::string_iterator it = st->names_begin(); it != st->names_end(); ++it) nm.push(*it);
    Value bk = Value::array(), nbk = Value::array();
    for (int k = 0; k < 9; k++) {
      Entity_kind kind = static_cast<Entity_kind>(k);
      Value l = Value::array(), nl = Value::array();
      for (State::permutation_type it = st->entity_begin(kind); it != st->entity_end(kind); ++it) {
        std::shared_ptr<StateVectorBase> *p = &*it;
        bool in = n > 0 && p >= &(*st->begin()) && p < &(*st->begin()) + n;
        l.push(in ? of(p->get()) : -4);
      }
      for (State::string_permutation it = st->names_entity_begin(kind); it != st->names_entity_end(kind); ++it) {
        std::string *p = &*it;
        bool in = n > 0 && p >= &(*st->names_begin()) && p < &(*st->names_begin()) + n;
        nl.push(in ? *p : std::string("(outside)"));
      }
      bk.push(l); nbk.push(nl);
    }
    Value q = Value::array();
    if (sc.has("qs")) for (auto const& x : sc["qs"].a) {
      Query y = {x["v"].str(), x["name"].str(), x["mult"].str(), x["dt"].str(), x["dom"].num(), x["kind"].num(), x["type"].num()};
      bool cst = false; int r = -5;
      DISPATCH(y.dt, y.dom > 0, r = Y::find(*this, y, &cst));
      Value w = Value::array(); w.push(r).push(cst); q.push(w);
    }
    Value hs = Value::array();
    for (auto const& x : h) {
      Value p = Value::object();
      p.set("name", x->b->name()).set("kind", static_cast<int>(x->b->entity_kind())).set("type", static_cast<int>(x->b->entity_type())).set("dt", dtype(x->b))
       .set("vt", x->b->type() == StateVector_type::UNIVAL ? "uni" : "multi").set("size", (long) x->b->size());
      x->project(*this, &p);
      hs.push(std::move(p));
    }
    v.set("reg", reg).set("names", nm).set("agree", same).set("size", st->size()).set("bykind", bk).set("namesbykind", nbk).set("q", std::move(q)).set("h", std::move(hs));
    v.set("mesh", st->mesh() == m[0]);
    // materials
    Value mat = Value::array(), cm = Value::array(), byname = Value::array(), idx = Value::array();
    int nm_ = cs.num_materials(), nc = m[0]->num_entities(Entity_kind::CELL, A);
    for (int i = 0; i < nm_; i++) {
      Value o = Value::object();
      std::shared_ptr<Jali::MeshSet> s = cs.material_set(i);
      o.set("name", cs.material_name(i)).set("n", cs.num_material_cells(i)).set("cells", ilist(cs.material_cells(i)));
      o.set("set", s && s->kind() == Entity_kind::CELL && s->name() == cs.material_name(i) && s->entities() == cs.material_cells(i) && m[0]->find_meshset(cs.material_name(i), Entity_kind::CELL) == s);
      Value ix = Value::array();
      for (int c = 0; c < nc; c++) ix.push(st->cell_index_in_material(c, i));
      o.set("idx", ix);
      mat.push(o);
    }
    bool agree = true;
    for (int c = 0; c < nc; c++) { cm.push(ilist(cs.cell_materials(c))); agree = agree && cs.num_cell_materials(c) == (int) cs.cell_materials(c).size(); }
    for (auto const& s : names) {
      Value w = Value::array();
      int i = cs.material_index_by_name(s);
      std::shared_ptr<Jali::MeshSet> p = cs.material_set_by_name(s);
      w.push(i).push(i < 0 ? (bool) !p : (bool) (i < nm_ && p == cs.material_set(i)));
      byname.push(w);
    }
    v.set("mats", mat).set("cellmats", cm).set("cmcount", agree).set("byname", byname);
    Value past = Value::array();
    past.push(cs.material_name(nm_)).push(cs.num_material_cells(nm_)).push((long) cs.material_cells(nm_).size());
    v.set("past", past);
    return v;
  }
};

static Value counts(StateRun& r) {
  Value all = Value::array();           // domain -1, 0, 1 .. : kind : type 1 .. 4
  for (int d = -1; d <= (int) r.m[0]->tiles().size(); d++) {
    Value ks = Value::array();
    for (int k = 0; k < 7; k++) {
      Value ts = Value::array();
      for (int t = 1; t <= 4; t++) {
        int n = d > 0 ? (int) r.m[0]->tiles()[d-1]->num_entities(static_cast<Entity_kind>(k), static_cast<Entity_type>(t))
                      : (int) r.m[d < 0 ? 1 : 0]->num_entities(static_cast<Entity_kind>(k), static_cast<Entity_type>(t));
        ts.push(n);
      }
      ks.push(ts);
    }
    all.push(ks);
  }
  return all;
}

void run_state(Value const& sc, Emit const& emit) {
  StateRun r;
  Opts o = opts_of(sc["opt"]);
  g_plain = false;
  for (auto const& op : sc["ops"].a) g_plain = g_plain || op["op"].str() == "print";
  {
    Value e = Value::object();
    e.set("op", "make");
    e.set("exc", guarded([&]() {
      r.m[0] = make_mesh(sc["mesh"], o); r.m[1] = make_mesh(sc["mesh"], o);
      if (sc.has("fields")) for (auto const& f : sc["fields"].a) {
        Field x; x.name = f["name"].str(); x.type = f["type"].str(); x.kind = static_cast<Entity_kind>(f["kind"].num());
        x.ncomp = 1;
        for (auto const& d : f["data"].a) { if (d.t == Value::ARR) { x.ncomp = d.size(); for (auto const& y : d.a) x.data.push_back(as_double(y.num())); } else x.data.push_back(x.type == "INT" ? as_int(d.num()) : as_double(d.num())); }
        if (f["data"].a.empty()) x.ncomp = f.num("ncomp", 1);
        dynamic_cast<HarnessMesh&>(*r.m[0]).offered.push_back(x);
      }
      r.st = State::create(r.m[0]);
      if (sc.has("names")) for (auto const& n : sc["names"].a) r.names.push_back(n.str());
      Value cls = Value::array();
      int nc = r.m[0]->num_entities(Entity_kind::CELL, A);
      for (int c = 0; c < nc; c++) cls.push((long) static_cast<int>(r.m[0]->entity_get_type(Entity_kind::CELL, c)));
      e.set("cls", cls).set("cnt", counts(r));
      e.set("o", r.observe(sc));
    }));
    emit(e);
    if (!r.st) return;
  }
  for (auto const& op : sc["ops"].a) {
    std::string k = op["op"].str();
    Value e = Value::object();
    e.set("op", k);
    Value ret = Value(-1);
    std::string exc = guarded([&]() {
      Entity_kind kind = static_cast<Entity_kind>(op.num("kind", -1));
      Entity_type type = static_cast<Entity_type>(op.num("type", -1));
      if (k == "add") { DISPATCH(op["dt"].str(), op["dom"].num() > 0, ret = r.handle(Y::add(r, op, kind, type))); }
      else if (k == "alone") { DISPATCH(op["dt"].str(), op["dom"].num() > 0, ret = r.handle(Y::alone(r, op, kind, type))); }
      else if (k == "addcopy") ret = r.h.at(op["h"].num())->add_copy(r, r.h);
      else if (k == "copy") ret = r.handle(r.h.at(op["h"].num())->copy());
      else if (k == "assign") r.h.at(op["h"].num())->assign(*r.h.at(op["from"].num()));
      else if (k == "fetch" || k == "fetchm") {
        Handle& x = *r.h.at(op["h"].num());
        bool f = false;
#define TRY(T, D) \
        if (auto *u = dynamic_cast<UniH<T, D>*>(&x)) f = Typed<T, D>::fetch(r, op, u->p, kind, type); \
        else if (auto *w = dynamic_cast<MultiH<T, D>*>(&x)) f = Typed<T, D>::fetch(r, op, w->p, kind, type);
#define TRYT(T) \
        if (auto *u = dynamic_cast<UniH<T, MeshTile>*>(&x)) f = r.st->get(op["name"].str(), Typed<T, MeshTile>::dom(r, op["dom"].num()), kind, type, u->p); \
        else if (auto *w = dynamic_cast<MultiH<T, MeshTile>*>(&x)) f = r.st->get(op["name"].str(), Typed<T, MeshTile>::dom(r, op["dom"].num()), kind, type, w->p);
        TRY(int, Mesh) TRY(double, Mesh) TRY(A2, Mesh) TRY(A3, Mesh) TRY(A6, Mesh)
        TRYT(int) TRYT(double) TRYT(A2) TRYT(A3) TRYT(A6)
        ret = (int) f;
      }
      else if (k == "write" || k == "resize" || k == "clear" || k == "mresize" || k == "mclear" || k == "assignv" || k == "assignd") r.h.at(op["h"].num())->write(op);
      else if (k == "addmat") r.st->add_material(op["name"].str(), op["l"].ints());
      else if (k == "addcells") r.st->add_cells_to_material(op["m"].num(), op["l"].ints());
      else if (k == "remmat") r.st->rem_material(op["m"].num());
      else if (k == "remname") r.st->rem_material_by_name(op["name"].str());
      else if (k == "mkset") {
        Entity_ID_List own, gho;
        for (int c : op["l"].ints()) { Entity_type t = r.m[0]->entity_get_type(Entity_kind::CELL, c); if (t == Entity_type::PARALLEL_OWNED) own.push_back(c); else if (t == Entity_type::PARALLEL_GHOST) gho.push_back(c); }
        Jali::make_meshset(op["name"].str(), *r.m[0], Entity_kind::CELL, own, gho, op.yes("map", true));
      }
      else if (k == "print") {
        Value each = Value::array();
        for (auto const& x : r.h) { std::ostringstream o; x->show(o); each.push(shown(o.str())); }
        std::ostringstream o; o << *r.st;
        e.set("each", each).set("whole", shown(o.str()));
      }
      else if (k == "spell")
        e.set("kinds", spelled<Entity_kind>(-3, 10)).set("types", spelled<Entity_type>(-2, 6)).set("cells", spelled<Jali::Cell_type>(0, 10)).set("parts", spelled<Jali::Partitioner_type>(0, 6));
      else if (k == "import") r.st->init_from_mesh();
      else if (k == "export") {
        HarnessMesh& hm = dynamic_cast<HarnessMesh&>(*r.m[0]);
        hm.stored.clear();
        r.st->export_to_mesh();
        Value l = Value::array();
        for (auto const& f : hm.stored) {
          Value x = Value::object(), d = Value::array();
          if (f.ncomp == 1) for (double y : f.data) d.push(f.type == "INT" ? enc((int) y) : enc(y));
          else for (size_t i = 0; i + f.ncomp <= f.data.size(); i += f.ncomp) { Value z = Value::array(); for (int j = 0; j < f.ncomp; j++) z.push(num(f.data[i+j])); d.push(z); }
          x.set("name", f.name).set("type", f.type).set("kind", static_cast<int>(f.kind)).set("data", d);
          l.push(x);
        }
        e.set("stored", l);
      }
      else throw std::runtime_error("op " + k);
    });
    e.set("exc", exc).set("ret", ret);
    e.set("o", r.observe(sc));
    emit(e);
  }
}
}  // namespace vh

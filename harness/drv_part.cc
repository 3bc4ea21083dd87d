// Drives the block partitioner and the division of meshes into tiles.
#include "drv.hh"
#include "block_partition.hh"
using js::Value;
using namespace Jali;
namespace vh {
void run_part(Value const& sc, Emit const& emit) {
  for (auto const& op : sc["ops"].a) {
    std::string k = op["op"].str();
    Value e = Value::object();
    e.set("op", k);
    std::string exc = guarded([&]() {
      if (k == "blocks") {
        int dim = op["dim"].num();
        std::vector<int> n = op["n"].ints();
        double domain[6] = {-1.5, 7.0, 2.0, 4.5, 0.0, 1.0};
        Value r = Value::array();
        for (int q = op["from"].num(); q <= op["to"].num(); q++) {
          std::vector<std::array<int, 3>> st(3, std::array<int, 3>{{9, 9, 9}}), nn;     // held something before
          int ret = block_partition_regular_mesh(dim, domain, &(n[0]), q, &st, &nn);
          Value b = Value::array();
          if (ret == 1) for (size_t i = 0; i < st.size() && i < nn.size(); i++) {
            Value s = Value::array(), c = Value::array();
            for (int d = 0; d < 3; d++) { s.push(d < dim ? st[i][d] : 0); c.push(d < dim ? nn[i][d] : 1); }
            b.push(Value::array().push(s).push(c));
          }
          if (st.size() != nn.size() && ret == 1) ret = -1;
          r.push(Value::object().set("ret", ret).set("b", b));
        }
        e.set("r", r);
      } else {
        Opts o = opts_of(sc["opt"]);
        auto m = make_mesh(sc["mesh"], o);
        Value v = Value::object(), t = Value::array(), cc = Value::array(), tp = Value::array();
        for (auto const& ti : m->tiles()) t.push(ilist(ti->cells<Entity_type::PARALLEL_OWNED>()));
        int nc = m->num_cells<Entity_type::ALL>();
        for (int c = 0; c < nc; c++) { cc.push(fpt(m->cell_centroid(c))); tp.push((int) m->entity_get_type(Entity_kind::CELL, c)); }
        v.set("t", t).set("nc", nc).set("cc", cc).set("tp", tp);
        e.set("o", v);
      }
    });
    e.set("exc", exc);
    emit(e);
  }
}
}  // namespace vh

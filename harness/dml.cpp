// Statements that change tables, against the table model (P24).
#include "dml.inc"
namespace {
PBT_FACET(f_history, "rows and indexes follow the statements of a history", "at least three rows were stored and a row was changed or removed", .quick = 15000, .hang_s = 120) { history(s, false); }
}  // namespace
namespace {
PBT_FACET(f_ident, "generated values stay within their columns", "always", .quick = 60, .hang_s = 60) {
    Engine e;
    Tab t;
    t.d.name = "T0";
    auto n = static_cast<std::size_t>(s.range(1, 34));
    bool nullable = s.flip();
    auto at = s.chance(50) ? n : 1 + s.idx(n);
    for (std::size_t i = 0; i <= n; ++i) {
        Col c;
        c.name = "C" + std::to_string(i);
        c.t = tree::ty(i == 0 ? K::int8 : K::int4);
        c.nullable = nullable && i != 0;
        if (i == at) { c.def = Def::sequence; c.init = static_cast<i64>(s.range(0, 8)) - 4; c.lo = -4; c.hi = INT32_MAX; }
        t.d.cols.push_back(c);
    }
    t.d.keys = {{0, true}};
    e.must(Engine::create_table(t.d));
    t.bound(e);
    std::vector<std::size_t> cs;
    std::vector<Engine::Cell> cells;
    Row_ row(n + 1);
    for (std::size_t i = 0; i <= n; ++i) {
        row[i].k = t.cols[i].t.k;
        row[i].i = i == at ? t.cols[i].init : static_cast<i64>(i) * 1000003;
        row[i].null = i != at && t.cols[i].nullable && s.chance(30);
        if (i == at) continue;
        cs.push_back(i);
        cells.push_back({row[i], t.cols[i].t});
    }
    e.must(e.insert("T0", cs, {cells}));
    t.put(row);
    t.check(e, "after the insert");
    s.nontrivial();
}
}

// A table of the reference model: rows by their encoded key, and what the storages must hold for them.
#include "engine.inc"
#include "kvref.h"
#include <jogasaki/kvs/coder.h>

namespace eng {
using Row_ = std::vector<V>;
struct Tab {
    TableDef d;
    std::vector<Col> cols{};          // of the table, with the key the engine added
    std::vector<IndexDef> secs{};
    std::vector<KeyRef> pk{};         // as the engine laid them out
    std::vector<std::size_t> vals{};
    std::map<std::string, Row_> rows{};  // by encoded primary key

    [[nodiscard]] std::string enc(std::size_t c, bool asc, V const& v) const { return reference(cols[c].t, cols[c].nullable, asc, v); }
    [[nodiscard]] std::string key(Row_ const& r) const {
        std::string o;
        for (auto& k : pk) o += enc(k.col, k.asc, r[k.col]);
        return o;
    }
    [[nodiscard]] std::string value(Row_ const& r) const {
        std::string o;
        for (auto c : vals) o += enc(c, kvs::spec_value.ordering() == kvs::order::ascending, r[c]);
        return o;
    }
    [[nodiscard]] std::string secondary(IndexDef const& x, Row_ const& r) const {
        std::string o;
        for (auto& k : x.keys) o += enc(k.col, k.asc, r[k.col]);
        return o + key(r);
    }
    [[nodiscard]] bool is_key(std::size_t c) const {
        return std::any_of(pk.begin(), pk.end(), [&](auto& k) { return k.col == c; });
    }
    [[nodiscard]] std::size_t visible() const { return d.cols.size(); }
    void put(Row_ r) {
        for (std::size_t i = 0; i < r.size(); ++i) r[i] = stored(cols[i].t, r[i]);
        auto k = key(r);
        rows[k] = std::move(r);
    }
    // the table is known to the engine now
    void bound(Engine& e) {
        auto t = e.table(d.name);
        auto i = e.index(d.name);
        PBT_CHECK(t && i, "no table ", d.name);
        cols = d.cols;
        for (std::size_t c = cols.size(); c < t->columns().size(); ++c) {
            Col h;
            h.name = std::string{t->columns()[c].simple_name()};
            h.t = tree::ty(K::int8);
            h.nullable = false;
            h.def = Def::sequence;
            auto q = t->columns()[c].default_value().element<ys::column_value_kind::sequence>();
            h.init = q->initial_value(); h.inc = q->increment_value(); h.lo = q->min_value(); h.hi = q->max_value(); h.cycle = q->cycle();
            cols.push_back(h);
        }
        PBT_EQ(cols.size(), d.cols.size() + (d.keys.empty() ? 1U : 0U), "columns of the table");
        auto find = [&](ys::column const& x) {
            for (std::size_t c = 0; c < cols.size(); ++c) if (cols[c].name == x.simple_name()) return c;
            PBT_CHECK(false, "an unknown column ", x.simple_name());
            return std::size_t{};
        };
        pk.clear();
        vals.clear();
        for (auto& k : i->keys()) pk.push_back({find(k.column()), k.direction() == ys::sort_direction::ascendant});
        for (auto& v : i->values()) vals.push_back(find(static_cast<ys::column const&>(v)));
        if (!d.keys.empty()) {
            PBT_EQ(pk.size(), d.keys.size());
            for (std::size_t k = 0; k < pk.size(); ++k) PBT_CHECK(pk[k].col == d.keys[k].col && pk[k].asc == d.keys[k].asc, "key column ", k);
        }
        for (std::size_t c = 0; c < cols.size(); ++c) PBT_CHECK(is_key(c) || std::count(vals.begin(), vals.end(), c) == 1, "column ", c, " is not stored");
    }
    // the storages hold the rows and nothing else
    void check(Engine const& e, std::string const& when) const {
        auto p = e.storage(d.name);
        PBT_CHECK(p != nullptr, "no storage for ", d.name);
        for (auto& [k, r] : rows) {
            auto it = p->data.find(k);
            PBT_CHECK(it != p->data.end(), when, ": row ", show_row(r), " is missing in ", d.name);
            PBT_EQ(hex(it->second), hex(value(r)), when, ": stored value of row ", show_row(r));
        }
        for (auto& [k, v] : p->data) PBT_CHECK(rows.count(k), when, ": unexpected entry ", hex(k), " -> ", hex(v), " in ", d.name);
        for (auto& x : secs) {
            auto q = e.storage(x.name);
            PBT_CHECK(q != nullptr, "no storage for ", x.name);
            std::set<std::string> want;
            for (auto& [k, r] : rows) {
                auto sk = secondary(x, r);
                want.insert(sk);
                PBT_CHECK(q->data.count(sk), when, ": index ", x.name, " lacks the entry of row ", show_row(r));
            }
            for (auto& [k, v] : q->data) {
                PBT_CHECK(want.count(k), when, ": stale entry ", hex(k), " in index ", x.name);
                PBT_EQ(v.size(), 0U, when, ": value of an index entry");
            }
        }
    }
    [[nodiscard]] static std::string show_row(Row_ const& r) {
        std::string o = "(";
        for (std::size_t i = 0; i < r.size(); ++i) o += cat(i ? ", " : "", r[i]);
        return o + ")";
    }
    [[nodiscard]] std::string describe() const {
        std::string o = d.name + "(";
        for (std::size_t i = 0; i < d.cols.size(); ++i) {
            auto& c = d.cols[i];
            o += cat(i ? ", " : "", c.name, " ", c.t, c.nullable ? "" : " not null",
                c.def == Def::value ? cat(" default ", c.dv) : c.def == Def::sequence ? cat(" sequence ", c.init, "+", c.inc, " [", c.lo, ",", c.hi, "]", c.cycle ? " cycle" : "") : std::string{},
                c.read_only ? " generated always" : "");
        }
        o += " key(";
        for (auto& k : d.keys) o += cat(" ", d.cols[k.col].name, k.asc ? "" : " desc");
        o += " ))";
        for (auto& x : secs) {
            o += cat(" index ", x.name, "(");
            for (auto& k : x.keys) o += cat(" ", cols.empty() ? std::to_string(k.col) : cols[k.col].name, k.asc ? "" : " desc");
            o += " )";
        }
        return o;
    }
};

inline Ty gen_col_type(Src& s, bool key) {
    Ty t = gen_type(s, false, key);
    if (t.k == K::int1 || t.k == K::int2) t.k = K::int4;
    if (t.k == K::boolean) t.k = K::date;  // booleans are no column type yet
    if (t.k == K::character && !t.len && (key || !t.varying)) t.len = 20;
    return t;
}
inline Tab gen_table(Src& s, std::string name, bool defaults = true, bool secondaries = true) {
    Tab t;
    t.d.name = std::move(name);
    bool wide = s.chance(6);
    std::size_t n = static_cast<std::size_t>(wide ? s.range(12, 20) : s.range(1, 5));
    std::size_t nk = s.chance(15) ? 0 : std::min<std::size_t>(n, static_cast<std::size_t>(s.range(1, 2)));
    std::vector<std::size_t> keys;
    while (keys.size() < nk) {
        auto c = s.idx(n);
        while (std::count(keys.begin(), keys.end(), c)) c = (c + 1) % n;
        keys.push_back(c);
    }
    for (std::size_t i = 0; i < n; ++i) {
        Col c;
        c.name = "C" + std::to_string(i);
        bool key = std::count(keys.begin(), keys.end(), i) != 0;
        bool idx = secondaries && s.chance(50);  // may be indexed
        c.t = s.chance(wide ? 95 : 40) ? tree::ty(s.chance(wide ? 5 : 50) ? K::int8 : K::int4) : gen_col_type(s, key || idx);
        c.nullable = !key && s.chance(70);
        if (defaults && s.chance(30)) {
            if ((c.t.k == K::int8 || c.t.k == K::int4) && s.flip()) {
                c.def = Def::sequence;
                c.inc = s.chance(20) ? -1 : s.range(1, 3);
                c.lo = s.range(0, 3) - 3;
                c.hi = c.t.k == K::int4 && s.chance(50) ? INT32_MAX : c.lo + (s.chance(25) ? s.range(1, 6) : 100000);
                c.init = std::min<i64>(c.hi, c.lo + static_cast<i64>(s.range(0, 3)));
                if (c.inc < 0) c.init = std::min<i64>(c.hi, c.lo + static_cast<i64>(s.range(0, 20)));
                c.cycle = s.flip();
                c.read_only = s.chance(20);
            } else if (!c.t.off) {
                c.def = Def::value;
                c.dv = gen_value(s, c.t, 80);
                if (s.chance(10)) c.dv.null = true;
                if (c.t.k == K::character) for (auto& x : c.dv.s) x = static_cast<char>((x & 0x7f) ? x & 0x7f : 'z');  // a text literal is UTF-8
            }
        }
        t.d.cols.push_back(std::move(c));
    }
    for (auto k : keys) t.d.keys.push_back({k, !s.chance(30)});
    if (secondaries) {
        auto m = s.range(0, 2);
        for (i64 x = 0; x < m; ++x) {
            IndexDef ix{t.d.name + "_I" + std::to_string(x), {}};
            auto w = static_cast<std::size_t>(s.range(1, 2));
            auto from = s.idx(n);
            for (std::size_t j = 0; j < n && ix.keys.size() < w; ++j) {
                auto c = (from + j) % n;
                auto& ct = t.d.cols[c].t;
                if (ct.k == K::octet && ct.varying) continue;
                if (ct.k == K::character && !ct.len) continue;
                ix.keys.push_back({c, !s.chance(30)});
            }
            if (!ix.keys.empty()) t.secs.push_back(std::move(ix));
        }
    }
    return t;
}
// a value for a column, near the values of the other rows
inline V gen_cell(Src& s, Tab const& t, std::size_t c) {
    if (!t.rows.empty() && s.chance(35)) {
        auto it = t.rows.begin();
        std::advance(it, s.idx(t.rows.size()));
        return it->second[c];
    }
    return gen_value(s, t.cols[c].t, 85);
}
}  // namespace eng

// P19: aggregate functions over grouped rows. Oracle: the definition of each function over the list of rows written, with 128 bit integers.
#include <memory>
#include <jogasaki/configuration.h>
#include <jogasaki/executor/exchange/aggregate/aggregate_info.h>
#include <jogasaki/executor/exchange/aggregate/flow.h>
#include <jogasaki/executor/exchange/aggregate/input_partition.h>
#include <jogasaki/executor/exchange/aggregate/reader.h>
#include <jogasaki/executor/exchange/aggregate/sink.h>
#include <jogasaki/executor/exchange/aggregate/source.h>
#include <jogasaki/executor/exchange/task.h>
#include <jogasaki/executor/function/incremental/aggregate_function_info.h>
#include <jogasaki/executor/function/incremental/aggregate_function_repository.h>
#include <jogasaki/executor/function/incremental/builtin_functions.h>
#include <jogasaki/executor/global.h>
#include <jogasaki/executor/io/group_reader.h>
#include <jogasaki/executor/io/record_writer.h>
#include <jogasaki/memory/monotonic_paged_memory_resource.h>
#include <jogasaki/memory/page_pool.h>
#include <jogasaki/status.h>
#include <jogasaki/utils/field_types.h>
#include <takatori/type/blob.h>
#include <takatori/type/character.h>
#include <takatori/type/clob.h>
#include <takatori/type/date.h>
#include <takatori/type/decimal.h>
#include <takatori/type/octet.h>
#include <takatori/type/primitive.h>
#include <takatori/type/time_of_day.h>
#include <takatori/type/time_point.h>
#include <takatori/type/varying.h>
#include <yugawara/aggregate/configurable_provider.h>
#include <algorithm>
#include <map>
#include <set>
#include <boost/multiprecision/cpp_int.hpp>
#include "rec.h"
using namespace rec;
using namespace jogasaki;
namespace ag = executor::exchange::aggregate;
namespace inc = executor::function::incremental;
using big = boost::multiprecision::cpp_int;

#include "globals.inc"
#include "context.inc"
namespace jogasaki::executor::exchange {
model::task_result task::operator()() { std::abort(); }  // the scheduler is not part of this
}

namespace {
using Vals = std::vector<V>;
enum class Fn { sum, count, rows, avg, max, min };
constexpr char const* FN[] = {"sum", "count", "count(*)", "avg", "max", "min"};

// the functions as they are registered for the compiler: found by name and argument type
struct Registry {
    inc::aggregate_function_repository repo;
    yugawara::aggregate::configurable_provider decls;
    Registry() { inc::add_builtin_aggregate_functions(decls, repo); }
    static Registry& get() {
        static Registry r;
        return r;
    }
};
std::shared_ptr<takatori::type::data> sql_type(Ty const& t) {
    namespace ty = takatori::type;
    switch (t.k) {
        case K::boolean: return std::make_shared<ty::boolean>();
        case K::int4: return std::make_shared<ty::int4>();
        case K::int8: return std::make_shared<ty::int8>();
        case K::float4: return std::make_shared<ty::float4>();
        case K::float8: return std::make_shared<ty::float8>();
        case K::decimal: return std::make_shared<ty::decimal>();
        case K::character: return std::make_shared<ty::character>(ty::varying);
        case K::octet: return std::make_shared<ty::octet>(ty::varying);
        case K::date: return std::make_shared<ty::date>();
        case K::time_of_day: return t.off ? std::make_shared<ty::time_of_day>(ty::with_time_zone) : std::make_shared<ty::time_of_day>();
        case K::time_point: return t.off ? std::make_shared<ty::time_point>(ty::with_time_zone) : std::make_shared<ty::time_point>();
        case K::blob: return std::make_shared<ty::blob>();
        case K::clob: return std::make_shared<ty::clob>();
        default: return {};
    }
}
struct Call {
    Fn fn{};
    std::size_t col{};
    inc::aggregate_function_info const* info{};
    meta::field_type result{};
};
bool numeric(K k) { return k == K::int4 || k == K::int8 || k == K::float4 || k == K::float8 || k == K::decimal; }
bool applies(Fn f, Ty const& t) {
    if (f == Fn::rows) return true;
    if (t.k == K::int1 || t.k == K::int2) return false;
    if (f == Fn::count) return true;
    if (f == Fn::sum || f == Fn::avg) return numeric(t.k);
    return t.k != K::boolean && t.k != K::blob && t.k != K::clob;
}
std::vector<yugawara::aggregate::declaration const*> find(Fn f, Ty const& t) {
    auto name = f == Fn::rows ? "count" : FN[static_cast<int>(f)];
    auto st = sql_type(t);
    std::vector<yugawara::aggregate::declaration const*> found;
    for (auto&& d : Registry::get().decls.all) {
        if (d->name() != name) continue;
        auto& ps = d->shared_parameter_types();
        if (f == Fn::rows ? ps.empty() : ps.size() == 1 && st && *ps[0] == *st) found.push_back(d.get());
    }
    return found;
}

struct Plan {
    std::vector<Ty> t;
    std::vector<bool> nullable;
    std::vector<std::size_t> keys;
    std::vector<Call> calls;
    bool on_empty = false;
    std::shared_ptr<meta::record_meta> meta;
    std::shared_ptr<ag::aggregate_info> info;
};
Plan gen_plan(Src& s) {
    Plan p;
    auto nk = s.pick({0, 1, 1, 1, 2, 3}), nv = static_cast<int>(s.range(1, 4));
    for (int i = 0; i < nk; ++i) p.t.push_back(gen_type(s, false));
    for (int i = 0; i < nv; ++i) {
        auto t = gen_type(s, true);
        if (s.chance(60)) t.k = s.pick({K::int4, K::int8, K::float4, K::float8, K::decimal});
        t.prec.reset();
        t.scale.reset();
        p.t.push_back(t);
    }
    for (int i = 0; i < nk; ++i) p.keys.push_back(static_cast<std::size_t>(i));
    for (std::size_t i = p.keys.size(); i > 1; --i) std::swap(p.keys[i - 1], p.keys[s.idx(i)]);
    // columns in any order
    std::vector<std::size_t> order(p.t.size());
    for (std::size_t i = 0; i < order.size(); ++i) order[i] = i;
    if (s.flip())
        for (std::size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[s.idx(i)]);
    std::vector<Ty> t2(p.t.size());
    for (std::size_t i = 0; i < order.size(); ++i) t2[order[i]] = p.t[i];
    for (auto& k : p.keys) k = order[k];
    p.t = t2;
    for (std::size_t i = 0; i < p.t.size(); ++i) p.nullable.push_back(s.chance(70));
    auto nc = s.range(1, 5);
    std::vector<ag::aggregate_info::value_spec> specs;
    for (i64 i = 0; i < nc; ++i) {
        Call c;
        c.fn = static_cast<Fn>(s.idx(6));
        c.col = s.idx(p.t.size());
        if (!applies(c.fn, p.t[c.col])) c.fn = s.pick({Fn::count, Fn::max, Fn::rows});
        if (!applies(c.fn, p.t[c.col])) c.fn = Fn::rows;
        if ((c.fn == Fn::sum || c.fn == Fn::avg) && std::find(p.keys.begin(), p.keys.end(), c.col) != p.keys.end()) c.fn = Fn::max;  // key columns hold extreme values
        auto d = find(c.fn, p.t[c.col]);
        PBT_EQ(d.size(), 1U, "declarations of ", FN[static_cast<int>(c.fn)], " for column type ", static_cast<int>(p.t[c.col].k));
        c.info = Registry::get().repo.find(d[0]->definition_id());
        PBT_CHECK(c.info != nullptr, "no function registered for the declaration");
        c.result = utils::type_for(d[0]->return_type());
        std::vector<std::size_t> args;
        if (c.fn != Fn::rows) args.push_back(c.col);
        specs.emplace_back(*c.info, args, c.result);
        p.calls.push_back(c);
    }
    p.on_empty = p.keys.empty() && s.chance(70);
    p.meta = make_meta(p.t, std::vector<bool>(p.t.size(), true));  // columns of an exchange are all nullable
    p.info = std::make_shared<ag::aggregate_info>(p.meta, p.keys, specs, p.on_empty);
    return p;
}
struct Gen {
    std::vector<std::vector<V>> pool;
    Plan const& p;
    bool mixed;  // decimals of many scales
    bool special;
    Gen(Src& s, Plan const& plan) : p(plan), mixed(s.flip()), special(s.chance(15)) {
        for (std::size_t i = 0; i < p.t.size(); ++i) {
            pool.emplace_back();
            auto k = s.range(1, 4);
            for (i64 j = 0; j < k; ++j) {
                V v = gen_value(s, p.t[i], 50);
                v.null = p.nullable[i] && s.chance(25);
                pool.back().push_back(v);
            }
        }
    }
    V value(Src& s, std::size_t i) {
        auto& t = p.t[i];
        if (std::find(p.keys.begin(), p.keys.end(), i) != p.keys.end()) return s.pick(pool[i]);
        V v;
        if (!numeric(t.k)) v = s.flip() ? s.pick(pool[i]) : gen_value(s, t, 50);
        else {
            v.k = t.k;
            auto mag = [&](int bits) { return static_cast<i64>(s.draw((2ULL << s.range(0, bits)) - 1)) * (s.flip() ? 1 : -1); };
            switch (t.k) {
                case K::int4: v.i = mag(23); break;
                case K::int8: v.i = mag(55); break;
                case K::float4: v.f = static_cast<float>(mag(14)) / 4; break;
                case K::float8: v.d = static_cast<double>(mag(40)) / 8; break;
                default: {
                    unsigned __int128 c = (static_cast<unsigned __int128>(s.draw(~0ULL)) << 64 | s.draw(~0ULL)) >> s.range(0, 127);
                    v.t = from_int(s.flip(), c % p10(mixed ? 26 : 36), mixed ? static_cast<int>(s.range(0, 8)) : 3);
                }
            }
            if (special && s.chance(15)) {
                if (t.k == K::float4) v.f = s.pick({INFINITY, -INFINITY, NAN, -0.0F});
                if (t.k == K::float8) v.d = s.pick<double>({INFINITY, -INFINITY, NAN, -0.0});
            }
        }
        v.null = p.nullable[i] && s.chance(s.pick({10, 50}));
        return v;
    }
    Vals row(Src& s) {
        Vals r;
        for (std::size_t i = 0; i < p.t.size(); ++i) r.push_back(value(s, i));
        return r;
    }
};
int cmp(Vals const& a, Vals const& b, std::vector<std::size_t> const& cols) {
    for (auto c : cols) {
        auto &x = a[c], &y = b[c];
        int r = x.null || y.null ? static_cast<int>(y.null) - static_cast<int>(x.null) : cmp3(x, y);
        if (r) return r;
    }
    return 0;
}
Row build(Plan const& p, Vals const& v) {
    Row r{p.meta};
    for (std::size_t i = 0; i < v.size(); ++i) r.set(i, v[i]);
    return r;
}
V at(meta::record_meta const& m, accessor::record_ref r, std::size_t i) {
    V v;
    v.k = m.at(i).kind();
    if (m.nullable(i) && r.is_null(m.nullity_offset(i))) {
        v.null = true;
        return v;
    }
    return get(r, m.value_offset(i), v.k);
}
big coef(triple const& t) {
    big c = t.coefficient_high();
    c <<= 64;
    c += t.coefficient_low();
    return t.sign() < 0 ? big(-c) : c;
}
big ten(i64 n) { return boost::multiprecision::pow(big{10}, static_cast<unsigned>(n)); }
i64 digits(big const& c) { return c == 0 ? 1 : static_cast<i64>(big(abs(c)).str().size()); }

void expect(Call const& c, std::vector<Vals const*> const& rows, V const& got) {
    auto name = FN[static_cast<int>(c.fn)];
    PBT_CHECK(got.null || got.k == c.result.kind());
    std::vector<V const*> vs;
    for (auto* r : rows)
        if (!(*r)[c.col].null) vs.push_back(&(*r)[c.col]);
    if (c.fn == Fn::rows || c.fn == Fn::count) {
        PBT_CHECK(!got.null, name, " is null");
        PBT_EQ(got.i, static_cast<i64>(c.fn == Fn::rows ? rows.size() : vs.size()), name);
        return;
    }
    PBT_EQ(got.null, vs.empty(), name, " over ", vs.size(), " values is null");
    if (vs.empty()) return;
    auto k = vs[0]->k;
    if (c.fn == Fn::max || c.fn == Fn::min) {
        auto* best = vs[0];
        for (auto* v : vs) {
            auto r = cmp3(*v, *best);
            if (c.fn == Fn::max ? r > 0 : r < 0) best = v;
        }
        PBT_CHECK(cmp3(got, *best) == 0, name, ": ", got, " for ", *best);
        return;
    }
    bool avg = c.fn == Fn::avg;
    auto n = static_cast<i64>(vs.size());
    switch (k) {
        case K::int4:
        case K::int8: {
            i64 sum = 0;
            for (auto* v : vs) sum += v->i;
            PBT_EQ(got.i, avg ? sum / n : sum, name, " of ", n);
            break;
        }
        case K::float4: {
            float sum = 0;
            for (auto* v : vs) sum += v->f;
            V w;
            w.k = k;
            w.f = avg ? sum / static_cast<float>(n) : sum;
            PBT_CHECK(same(got, w, true), name, ": ", got, " for ", w);
            break;
        }
        case K::float8: {
            double sum = 0;
            for (auto* v : vs) sum += v->d;
            V w;
            w.k = k;
            w.d = avg ? sum / static_cast<double>(n) : sum;
            PBT_CHECK(same(got, w, true), name, ": ", got, " for ", w);
            break;
        }
        default: {
            big sum = 0;  // units of 10^-8
            for (auto* v : vs) sum += coef(v->t) * ten(8 + v->t.exponent());
            auto g = coef(got.t);
            i64 e = got.t.exponent();
            // got = g * 10^e against sum * 10^-8 / m
            big m = avg ? n : 1;
            big lhs = g * m, rhs = sum, ulp = m;
            if (e + 8 >= 0) {
                lhs *= ten(e + 8);
                ulp *= ten(e + 8);
            } else rhs *= ten(-(e + 8));
            big diff = abs(big(lhs - rhs));
            if (digits(g) < 38) PBT_CHECK(diff == 0, name, " of ", n, " decimals: ", got, " for ", sum, "E-8 / ", m);
            else PBT_CHECK(diff * 2 <= ulp, name, " of ", n, " decimals: ", got, " for ", sum, "E-8 / ", m);
        }
    }
}
struct Reading {
    Plan const& p;
    std::vector<Vals> const& rows;
    bool extra;  // one record for no rows
    std::vector<Vals> keys{};
    std::size_t groups = 0, big_groups = 0;
    void source(Src& s, executor::io::group_reader& r) {
        auto& gm = *p.info->post().group_meta();
        std::optional<Vals> last;
        while (r.next_group()) {
            auto k = r.get_group();
            Vals key(p.t.size());
            if (!extra)
                for (std::size_t i = 0; i < p.keys.size(); ++i) key[p.keys[i]] = at(gm.key(), k, i);
            std::vector<Vals const*> members;
            for (auto&& v : rows)
                if (cmp(v, key, p.keys) == 0) members.push_back(&v);
            PBT_CHECK(extra || !members.empty(), "a group of no row");
            for (auto&& o : keys) PBT_CHECK(cmp(o, key, p.keys) != 0, "a group twice");
            if (last) PBT_CHECK(cmp(*last, key, p.keys) < 0, "groups not in the order of their keys");
            last = key;
            keys.push_back(key);
            ++groups;
            if (members.size() > 2) ++big_groups;
            if (s.chance(15)) continue_without_member(r);
            else {
                PBT_CHECK(r.next_member(), "no member");
                auto m = r.get_member();
                auto times = s.range(1, 2);
                for (i64 t = 0; t < times; ++t) {
                    for (std::size_t i = 0; i < p.calls.size(); ++i) expect(p.calls[i], members, at(gm.value(), m, i));
                    m = r.get_member();
                }
                PBT_CHECK(!r.next_member(), "two members");
            }
        }
    }
    static void continue_without_member(executor::io::group_reader& r) {
        PBT_CHECK(r.next_member());
        PBT_CHECK(!r.next_member());
    }
    void finish() {
        std::size_t want = extra ? 1 : 0;
        std::vector<Vals const*> distinct;
        for (auto&& v : rows) {
            bool known = false;
            for (auto* d : distinct) known |= cmp(*d, v, p.keys) == 0;
            if (!known) distinct.push_back(&v);
        }
        PBT_EQ(groups, want + distinct.size(), "groups");
    }
};
void write(Src&, Plan const& p, Vals const& v, executor::io::record_writer& w) {
    auto r = build(p, v);
    PBT_CHECK(w.write(r.ref()));
    std::memset(r.mem, 0x77, p.meta->record_size());
    for (auto&& b : r.res->blocks) b.reset();
}

PBT_FACET(f_registered, "every declared aggregate function exists and is declared for one argument type", "function that applies to the type", .quick = 500) {
    auto f = static_cast<Fn>(s.idx(6));
    auto t = gen_type(s, true);
    auto d = find(f, t);
    PBT_EQ(d.size(), applies(f, t) ? 1U : 0U, FN[static_cast<int>(f)], " of type ", static_cast<int>(t.k));
    auto& r = Registry::get();
    PBT_EQ(r.repo.size(), r.decls.all.size());
    std::set<std::size_t> ids;
    for (auto&& x : r.decls.all) {
        PBT_CHECK(ids.insert(x->definition_id()).second, "id twice");
        PBT_CHECK(r.repo.find(x->definition_id()) != nullptr);
    }
    if (d.empty()) return;
    s.nontrivial();
    constexpr inc::aggregate_function_kind KIND[] = {inc::aggregate_function_kind::sum, inc::aggregate_function_kind::count, inc::aggregate_function_kind::count_rows, inc::aggregate_function_kind::avg,
        inc::aggregate_function_kind::max, inc::aggregate_function_kind::min};
    PBT_CHECK(r.repo.find(d[0]->definition_id())->kind() == KIND[static_cast<int>(f)], "declared ", d[0]->name(), " is not the function registered");
    bool counts = f == Fn::rows || f == Fn::count;
    PBT_CHECK(counts ? d[0]->return_type().kind() == takatori::type::type_kind::int8 : d[0]->return_type() == *sql_type(t), "result type of ", d[0]->name());
}

PBT_FACET(f_flow, "an aggregate exchange delivers one row per key with the value of each function over the rows of that key", "several groups, one of three rows or more, from two sinks", .quick = 1500) {
    auto p = gen_plan(s);
    auto down = p.keys.empty() ? 1U : static_cast<std::size_t>(s.range(1, 4));
    bool error = s.chance(10);
    ctx_status = error ? status::err_unknown : status::ok;
    ag::flow f{p.info, the_context(), nullptr, down};
    f.setup_partitions(static_cast<std::size_t>(s.range(1, 3)));
    PBT_EQ(f.source_count(), down);
    Gen g{s, p};
    std::vector<Vals> rows;
    auto n = s.chance(15) ? 0 : s.size(60);
    std::vector<executor::io::record_writer*> w(f.sink_count());
    std::set<std::size_t> used;
    bool idle = n == 0 && s.flip();  // a writer that is given back unused
    if (idle) f.sink_at(0).acquire_writer().release();
    for (std::size_t k = 0; k < n; ++k) {
        auto i = s.idx(w.size());
        if (!w[i]) w[i] = &f.sink_at(i).acquire_writer();
        rows.push_back(g.row(s));
        write(s, p, rows.back(), *w[i]);
        used.insert(i);
        if (s.chance(8)) w[i]->flush();
    }
    for (auto*& x : w) {
        if (!x) continue;
        x->flush();
        x->release();
        x = nullptr;
    }
    PBT_EQ(f.create_tasks().size(), 1U);
    bool extra = rows.empty() && p.on_empty && !error;
    PBT_EQ(f.info().empty_input(), rows.empty() && !extra, "empty input");
    Reading rd{p, rows, extra};
    for (std::size_t i = 0; i < f.source_count(); ++i) {
        auto rc = f.source_at(i).acquire_reader();
        auto* r = rc.reader<executor::io::group_reader>();
        PBT_CHECK(r != nullptr);
        rd.source(s, *r);
        r->release();
    }
    rd.finish();
    if (used.size() > 1 && rd.big_groups > 0 && rd.groups > 1) s.nontrivial();
}

PBT_FACET(f_tables, "groups that are spread over many hash tables are merged", "three tables or more", .quick = 6000) {
    auto p = gen_plan(s);
    Gen g{s, p};
    std::vector<Vals> rows;
    std::vector<std::unique_ptr<ag::input_partition>> ps;
    auto k = s.range(1, 3);
    std::size_t tables = 0;
    for (i64 i = 0; i < k; ++i) {
        if (s.chance(10)) {
            ps.push_back(nullptr);
            continue;
        }
        ps.push_back(std::make_unique<ag::input_partition>(p.info, static_cast<std::size_t>(s.pick({2, 4, 8, 16})), 1024));
        auto n = s.size(40);
        std::vector<Vals> run;
        std::size_t mine = 0;
        for (std::size_t j = 0; j < n; ++j) {
            rows.push_back(g.row(s));
            if (run.empty()) ++mine;
            run.push_back(rows.back());
            bool full;
            {
                auto r = build(p, rows.back());
                full = ps.back()->write(r.ref());
                std::memset(r.mem, 0x77, p.meta->record_size());
            }
            if (full) run.clear();
            if (s.chance(10)) {
                ps.back()->flush();
                run.clear();
            }
        }
        ps.back()->flush();
        PBT_EQ(ps.back()->tables_count(), mine, "tables");
        std::size_t t = 0;
        for (auto&& x : *ps.back()) {
            PBT_CHECK(x.begin() != x.end() && !ps.back()->empty(t), "an empty table");
            ++t;
        }
        if (s.flip()) ps.back()->release_hashtable();
        tables += mine;
    }
    Reading rd{p, rows, false};
    ag::reader r{p.info, ps};
    rd.source(s, r);
    r.release();
    rd.finish();
    PBT_CHECK(ps.empty(), "partitions are given back on release");
    if (tables > 2) s.nontrivial();
}
}  // namespace

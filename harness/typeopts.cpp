// P11: column type options and large-object references compare and print consistently.
#include <optional>
#include <set>
#include <sstream>
#include <string>
#include <type_traits>
#include <vector>
#include <jogasaki/api/character_field_option.h>
#include <jogasaki/api/decimal_field_option.h>
#include <jogasaki/api/kvsservice/commit_option.h>
#include <jogasaki/api/kvsservice/put_option.h>
#include <jogasaki/api/kvsservice/remove_option.h>
#include <jogasaki/api/octet_field_option.h>
#include <jogasaki/api/time_of_day_field_option.h>
#include <jogasaki/api/time_point_field_option.h>
#include <jogasaki/data/any_sequence_stream_status.h>
#include <jogasaki/executor/file/time_unit_kind.h>
#include <jogasaki/executor/file/writer_column_option.h>
#include <jogasaki/executor/function/table_valued_function_kind.h>
#include <jogasaki/executor/process/impl/region_id.h>
#include <jogasaki/executor/sequence/exception.h>
#include <jogasaki/key_distribution_kind.h>
#include <jogasaki/kvs/coding_context.h>
#include <jogasaki/lob/blob_locator.h>
#include <jogasaki/lob/blob_reference.h>
#include <jogasaki/lob/clob_locator.h>
#include <jogasaki/lob/clob_reference.h>
#include <jogasaki/meta/character_field_option.h>
#include <jogasaki/meta/decimal_field_option.h>
#include <jogasaki/meta/octet_field_option.h>
#include <jogasaki/meta/time_of_day_field_option.h>
#include <jogasaki/meta/time_point_field_option.h>
#include <jogasaki/model/step_kind.h>
#include <jogasaki/request_statistics.h>
#include <jogasaki/scheduler/hybrid_execution_mode.h>
#include <jogasaki/scheduler/step_state.h>
#include <jogasaki/scheduler/thread_info.h>
#include <jogasaki/serializer/entry_type.h>
#include "pbt.h"
using namespace pbt;
using namespace jogasaki;

template <class T>
static std::string str(T const& v) {
    std::ostringstream os;
    os << v;
    return os.str();
}
using osz = std::optional<std::size_t>;
static osz gen_len(Src& s) {
    switch (s.draw(3)) {
        case 0: return std::nullopt;
        case 1: return s.draw(5);
        case 2: return s.pick<std::size_t>({0, 1, 10, 38, 255, 2097132, 2097152, ~std::size_t{0}});
        default: return s.any_u64();
    }
}
static std::string sl(osz const& l) { return l ? std::to_string(*l) : "*"; }

template <class M, class A>
static void string_option(Src& s, std::string const& type) {
    bool v1 = s.flip();
    osz l1 = gen_len(s);
    bool v2 = s.flip() ? v1 : s.flip();
    osz l2 = s.flip() ? l1 : gen_len(s);
    if (v1 != v2 || l1 != l2) s.nontrivial();
    M a{v1, l1}, b{v2, l2};
    PBT_EQ(a == b, v1 == v2 && l1 == l2, type, " ", str(a), " and ", str(b));
    PBT_EQ(b == a, v1 == v2 && l1 == l2);
    PBT_EQ(str(a), type + (v1 ? " varying" : "") + "(" + sl(l1) + ")");
    PBT_CHECK(M{a} == a, "a copy differs");
    M d{};
    PBT_CHECK(d.varying_ && !d.length_, "default is not varying(*)");
    A api{v1, l1};
    PBT_EQ(api.varying(), v1);
    PBT_CHECK(api.length() == l1, "length");
    A ad{};
    PBT_CHECK(ad.varying() && !ad.length(), "default is not varying(*)");
    s.ops += 6;
}

PBT_FACET(strings, "character and octet options", "the two options differ", .quick = 40000) {
    if (s.flip()) string_option<meta::character_field_option, api::character_field_option>(s, "character");
    else string_option<meta::octet_field_option, api::octet_field_option>(s, "octet");
}

PBT_FACET(decimals, "decimal options", "the two options differ", .quick = 40000) {
    osz p1 = gen_len(s), c1 = gen_len(s);
    osz p2 = s.flip() ? p1 : gen_len(s), c2 = s.flip() ? c1 : gen_len(s);
    if (s.chance(15)) { p2 = c1; c2 = p1; }
    if (p1 != p2 || c1 != c2) s.nontrivial();
    meta::decimal_field_option a{p1, c1}, b{p2, c2};
    PBT_EQ(a == b, p1 == p2 && c1 == c2, str(a), " and ", str(b));
    PBT_EQ(b == a, p1 == p2 && c1 == c2);
    PBT_EQ(str(a), "decimal(" + sl(p1) + ", " + sl(c1) + ")");
    meta::decimal_field_option d{};
    PBT_CHECK(!d.precision_ && !d.scale_, "default");
    api::decimal_field_option x{p1, c1}, y{};
    PBT_CHECK(x.precision() == p1 && x.scale() == c1 && !y.precision() && !y.scale(), "public option");
    s.ops += 5;
}

template <class M, class A>
static void time_option(Src& s, std::string const& type) {
    bool x = s.flip(), y = s.flip();
    if (x != y) s.nontrivial();
    M a{x}, b{y};
    PBT_EQ(a == b, x == y);
    PBT_EQ(str(a), type + "(with_offset=" + (x ? "1" : "0") + ")");
    PBT_EQ(M{}.with_offset_, false);
    PBT_EQ(A{x}.with_offset(), x);
    PBT_EQ(A{}.with_offset(), false);
    s.ops += 5;
}
PBT_FACET(times, "time of day and time point options", "the two options differ", .quick = 4000) {
    if (s.flip()) time_option<meta::time_of_day_field_option, api::time_of_day_field_option>(s, "time_of_day");
    else time_option<meta::time_point_field_option, api::time_point_field_option>(s, "time_point");
}

// ---- large object references ---------------------------------------------------------------
namespace {
struct RefModel {
    int kind = 0;  // 0 undefined 1 provided 2 fetched 3 resolved
    u64 id = 0;
    int prov = 0;
    int loc = -1;
    std::optional<u64> tag;
};
std::string prov_name(int p) {
    static const char* n[] = {"undefined", "datastore", "sql", "relay_service_session"};
    return n[p];
}
}  // namespace

template <class Ref, class Loc>
static void lob_case(Src& s) {
    std::vector<Loc> locs;
    std::vector<std::pair<std::string, bool>> lm;
    for (std::size_t i = 0; i < 2; ++i) {
        std::string p = s.flip() && i ? lm[0].first : s.utf8(6);
        bool t = s.flip();
        lm.emplace_back(p, t);
        locs.emplace_back(p, t);
    }
    PBT_EQ(locs[0] == locs[1], lm[0] == lm[1], "locators");
    PBT_EQ(locs[0] != locs[1], lm[0] != lm[1], "locators");
    for (int i = 0; i < 2; ++i) {
        PBT_EQ(std::string(locs[i].path()), lm[i].first);
        PBT_EQ(locs[i].is_temporary(), lm[i].second);
        PBT_EQ(str(locs[i]), "path:\"" + lm[i].first + "\" is_temporary:" + (lm[i].second ? "1" : "0"));
    }
    std::vector<u64> ids{s.draw(2), s.any_u64()};
    std::vector<Ref> rs;
    std::vector<RefModel> ms;
    std::size_t n = 2 + s.idx(3);
    std::set<int> kinds;
    for (std::size_t i = 0; i < n; ++i) {
        RefModel m;
        m.kind = static_cast<int>(s.draw(3));
        kinds.insert(m.kind);
        switch (m.kind) {
            case 0: rs.emplace_back(); break;
            case 1:
                m.loc = static_cast<int>(s.draw(1));
                rs.emplace_back(locs[m.loc]);
                break;
            case 2:
                m.id = s.pick(ids);
                m.prov = 1;
                rs.emplace_back(m.id);
                break;
            default:
                m.id = s.pick(ids);
                m.prov = static_cast<int>(s.draw(3));
                rs.emplace_back(m.id, static_cast<lob::lob_data_provider>(m.prov));
        }
        if (s.chance(40)) {
            m.tag = s.any_u64();
            Ref& back = rs.back().reference_tag(m.tag);
            PBT_CHECK(&back == &rs.back(), "the setter does not return the object");
            if (s.chance(20)) {
                m.tag.reset();
                rs.back().reference_tag(std::nullopt);
            }
        }
        ms.push_back(m);
    }
    if (kinds.size() > 1) s.nontrivial();
    for (std::size_t i = 0; i < n; ++i) {
        auto const& m = ms[i];
        auto const& r = rs[i];
        PBT_EQ(static_cast<int>(r.kind()), m.kind);
        PBT_EQ(r.object_id(), m.id);
        PBT_EQ(static_cast<int>(r.provider()), m.prov);
        auto const& base = static_cast<lob::lob_reference const&>(r);
        PBT_CHECK(base.reference_tag() == m.tag, "tag");
        PBT_CHECK(r.locator() == (m.loc < 0 ? nullptr : static_cast<lob::lob_locator const*>(&locs[m.loc])), "locator");
        static const char* kn[] = {"undefined", "provided", "fetched", "resolved"};
        std::string w = std::string("kind:") + kn[m.kind];
        if (m.kind) {
            if (m.tag) w += ",tag:" + std::to_string(*m.tag);
            if (m.kind == 1) w += ",locator:{" + str(locs[m.loc]) + "}";
            else w += ",id:" + std::to_string(m.id) + ",provider:" + prov_name(m.prov);
        }
        PBT_EQ(str(base), w);
        s.ops += 6;
        for (std::size_t j = 0; j < n; ++j) {
            auto const& o = ms[j];
            bool eq = m.kind == o.kind && (m.kind == 0 || (m.kind == 1 ? m.loc == o.loc : (m.id == o.id && m.prov == o.prov)));
            PBT_EQ(r == rs[j], eq, str(base), " and ", str(static_cast<lob::lob_reference const&>(rs[j])));
            PBT_EQ(r != rs[j], !eq);
            s.ops += 2;
        }
    }
}
PBT_FACET(lobs, "large object references", "references of several kinds are compared", .quick = 40000) {
    if (s.flip()) lob_case<lob::blob_reference, lob::blob_locator>(s);
    else lob_case<lob::clob_reference, lob::clob_locator>(s);
}

// ---- names of enumerators: shown in logs and messages, so distinct and stable ------------------
template <class E>
static void names(Src& s, std::vector<std::pair<E, std::string>> const& all) {
    auto const& a = s.pick(all);
    auto const& b = s.pick(all);
    PBT_EQ(std::string(to_string_view(a.first)), a.second);
    PBT_EQ(to_string_view(a.first) == to_string_view(b.first), a.first == b.first);
    if (a.first != b.first) s.nontrivial();
    s.ops += 2;
}
PBT_FACET(kinds, "names of kinds", "two different kinds are compared", .quick = 20000) {
    switch (s.draw(11)) {
        case 0: {
            using K = lob::lob_data_provider;
            names<K>(s, {{K::undefined, "undefined"}, {K::datastore, "datastore"}, {K::sql, "sql"}, {K::relay_service_session, "relay_service_session"}});
            break;
        }
        case 1: {
            using K = lob::lob_reference_kind;
            names<K>(s, {{K::undefined, "undefined"}, {K::provided, "provided"}, {K::fetched, "fetched"}, {K::resolved, "resolved"}});
            break;
        }
        case 2: {
            using K = key_distribution_kind;
            names<K>(s, {{K::undefined, "undefined"}, {K::simple, "simple"}, {K::uniform, "uniform"}, {K::sampling, "sampling"}});
            break;
        }
        case 3: {
            using K = executor::file::time_unit_kind;
            names<K>(s, {{K::unspecified, "unspecified"}, {K::nanosecond, "nanosecond"}, {K::microsecond, "microsecond"}, {K::millisecond, "millisecond"}, {K::second, "second"}});
            break;
        }
        case 4: {
            using K = executor::function::table_valued_function_kind;
            names<K>(s, {{K::undefined, "undefined"}, {K::builtin, "builtin"}, {K::user_defined, "user_defined"}});
            break;
        }
        case 5: {
            using K = scheduler::step_state_kind;
            std::vector<std::pair<K, std::string>> all{{K::uninitialized, "uninitialized"}, {K::created, "created"}, {K::activated, "activated"}, {K::preparing, "preparing"},
                {K::prepared, "prepared"}, {K::running, "running"}, {K::completing, "completing"}, {K::completed, "completed"}, {K::deactivated, "deactivated"}};
            names<K>(s, all);
            // states are ordered by the life cycle
            std::size_t i = s.idx(all.size()), j = s.idx(all.size());
            K a = all[i].first, b = all[j].first;
            using scheduler::operator<;
            using scheduler::operator>;
            using scheduler::operator<=;
            using scheduler::operator>=;
            PBT_EQ(a < b, i < j);
            PBT_EQ(a > b, i > j);
            PBT_EQ(a <= b, i <= j);
            PBT_EQ(a >= b, i >= j);
            break;
        }
        case 6: {
            using K = scheduler::hybrid_execution_mode_kind;
            names<K>(s, {{K::undefined, "undefined"}, {K::serial, "serial"}, {K::stealing, "stealing"}});
            break;
        }
        case 7: {
            using K = data::any_sequence_stream_status;
            names<K>(s, {{K::ok, "ok"}, {K::error, "error"}, {K::end_of_stream, "end_of_stream"}, {K::not_ready, "not_ready"}});
            break;
        }
        case 8: {
            using K = model::step_kind;
            names<K>(s, {{K::process, "process"}, {K::forward, "forward"}, {K::broadcast, "broadcast"}, {K::group, "group"}, {K::aggregate, "aggregate"}});
            break;
        }
        case 9: {
            using K = counter_kind;
            names<K>(s, {{K::undefined, "undefined"}, {K::inserted, "inserted"}, {K::updated, "updated"}, {K::merged, "merged"}, {K::deleted, "deleted"}, {K::fetched, "fetched"}});
            break;
        }
        case 10: {
            using K = serializer::entry_type;
            names<K>(s, {{K::end_of_contents, "end_of_contents"}, {K::null, "null"}, {K::int_, "int_"}, {K::float4, "float4"}, {K::float8, "float8"}, {K::decimal, "decimal"},
                {K::character, "character"}, {K::octet, "octet"}, {K::bit, "bit"}, {K::date, "date"}, {K::time_of_day, "time_of_day"},
                {K::time_of_day_with_offset, "time_of_day_with_offset"}, {K::time_point, "time_point"}, {K::time_point_with_offset, "time_point_with_offset"},
                {K::datetime_interval, "datetime_interval"}, {K::row, "row"}, {K::array, "array"}, {K::clob, "clob"}, {K::blob, "blob"}});
            break;
        }
        default: {
            using K = executor::process::impl::region_kind;
            names<K>(s, {{K::undefined, "undefined"}, {K::basic_block, "basic_block"}});
        }
    }
}

PBT_FACET(regions, "regions and worker identities", "two regions are compared", .quick = 10000) {
    using namespace executor::process::impl;
    auto gen = [&](int& k, std::size_t& i) {
        i = s.pick<std::size_t>({0, 1, s.any_u64()});
        switch (s.draw(2)) {
            case 0: k = 0; i = 0; return region_id{};
            case 1: k = 1; return region_id{i};
            default: k = static_cast<int>(s.draw(1)); return region_id{static_cast<region_kind>(k), i};
        }
    };
    int k1, k2;
    std::size_t i1, i2;
    auto a = gen(k1, i1), b = gen(k2, i2);
    s.nontrivial();
    PBT_EQ(static_cast<int>(a.kind()), k1);
    PBT_EQ(a.index(), i1);
    PBT_EQ(static_cast<bool>(a), k1 != 0);
    PBT_EQ(a.operator==(b), k1 == k2 && i1 == i2);
    PBT_EQ(a.operator!=(b), !(k1 == k2 && i1 == i2));
    PBT_EQ(str(a), std::string(k1 ? "basic_block:" : "undefined:") + std::to_string(i1));
    bool w = s.flip();
    std::size_t idx = s.any_u64();
    scheduler::thread_info t{w, idx}, d{};
    PBT_EQ(t.is_worker_thread(), w);
    PBT_EQ(t.worker_index(), idx);
    PBT_CHECK(!d.is_worker_thread() && d.worker_index() == scheduler::thread_info::undefined, "default");
    kvs::coding_context c{};
    PBT_EQ(c.coding_for_write(), false);
    c.coding_for_write(w);
    PBT_EQ(c.coding_for_write(), w);
    std::string msg = s.utf8(10);
    for (auto& ch : msg) if (ch == 0) ch = 'x';
    auto st = static_cast<status>(s.pick({0, 1, -1, -10}));
    executor::sequence::exception e{st, msg};
    PBT_EQ(std::string(e.what()), msg);
    PBT_EQ(static_cast<int>(e.get_status()), static_cast<int>(st));
    s.ops += 12;
}

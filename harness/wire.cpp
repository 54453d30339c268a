// Result descriptions (columns, tables) and their wire messages.
#include <jogasaki/executor/dto/common_column.h>
#include <jogasaki/executor/dto/common_column_utils.h>
#include <jogasaki/executor/dto/describe_table.h>
#include <jogasaki/executor/dto/describe_table_utils.h>
#include <jogasaki/utils/proto_debug_string.h>

#include <nlohmann/json.hpp>

#include "pbt.h"

using namespace jogasaki::executor::dto;
namespace pc = jogasaki::proto::sql::common;
namespace pr = jogasaki::proto::sql::response;
using pbt::Src;
using opt_len = std::optional<std::variant<std::uint32_t, bool>>;
using at = common_column::atom_type;

namespace {

std::vector<std::pair<at, pc::AtomType>> const kTypes{
    {at::type_unspecified, pc::TYPE_UNSPECIFIED}, {at::boolean, pc::BOOLEAN}, {at::int4, pc::INT4}, {at::int8, pc::INT8},
    {at::float4, pc::FLOAT4}, {at::float8, pc::FLOAT8}, {at::decimal, pc::DECIMAL}, {at::character, pc::CHARACTER}, {at::octet, pc::OCTET},
    {at::bit, pc::BIT}, {at::date, pc::DATE}, {at::time_of_day, pc::TIME_OF_DAY}, {at::time_point, pc::TIME_POINT},
    {at::datetime_interval, pc::DATETIME_INTERVAL}, {at::time_of_day_with_time_zone, pc::TIME_OF_DAY_WITH_TIME_ZONE},
    {at::time_point_with_time_zone, pc::TIME_POINT_WITH_TIME_ZONE}, {at::clob, pc::CLOB}, {at::blob, pc::BLOB}, {at::unknown, pc::UNKNOWN}};

opt_len gen_len(Src& s) {
    switch (s.draw(4)) {
        case 0: return std::nullopt;
        case 1: return opt_len{std::variant<std::uint32_t, bool>{true}};
        case 2: return opt_len{std::variant<std::uint32_t, bool>{std::uint32_t{0}}};
        default: return opt_len{std::variant<std::uint32_t, bool>{static_cast<std::uint32_t>(s.integer(0, 0xffffffffLL))}};
    }
}

std::optional<bool> gen_flag(Src& s) {
    auto v = s.draw(2);
    if (v == 0) return std::nullopt;
    return v == 2;
}

std::optional<std::string> gen_desc(Src& s) {
    if (!s.flip()) return std::nullopt;
    return s.flip() ? s.utf8(10) : std::string{};
}

common_column gen_column(Src& s) {
    common_column c{};
    c.name_ = s.utf8(6);
    c.atom_type_ = s.pick(kTypes).first;
    c.dimension_ = s.flip() ? 0 : static_cast<std::uint32_t>(s.integer(0, 0xffffffffLL));
    c.length_ = gen_len(s);
    c.precision_ = gen_len(s);
    c.scale_ = gen_len(s);
    c.nullable_ = gen_flag(s);
    c.varying_ = gen_flag(s);
    c.description_ = gen_desc(s);
    return c;
}

bool rich(common_column const& c) {
    return (c.length_ || c.precision_ || c.scale_) && (c.nullable_ || c.varying_ || c.description_);
}

// what the message must say, read field by field with the generated accessors only
void check_message(pc::Column const& m, common_column const& c) {
    PBT_EQ(m.name(), c.name_);
    bool found = false;
    for (auto& [a, b] : kTypes) {
        if (a == c.atom_type_) {
            found = true;
            PBT_EQ(static_cast<int>(m.atom_type()), static_cast<int>(b));
        }
    }
    PBT_CHECK(found && m.type_info_case() == pc::Column::kAtomType, "type");
    PBT_EQ(m.dimension(), c.dimension_);
    auto len = [](opt_len const& o, bool num, bool arb, std::uint32_t v, char const* what) {
        PBT_EQ(num, (o && std::holds_alternative<std::uint32_t>(*o)), what);
        PBT_EQ(arb, (o && std::holds_alternative<bool>(*o)), what);
        if (num) PBT_EQ(v, std::get<std::uint32_t>(*o), what);
    };
    len(c.length_, m.length_opt_case() == pc::Column::kLength, m.length_opt_case() == pc::Column::kArbitraryLength, m.length(), "length");
    len(c.precision_, m.precision_opt_case() == pc::Column::kPrecision, m.precision_opt_case() == pc::Column::kArbitraryPrecision, m.precision(), "precision");
    len(c.scale_, m.scale_opt_case() == pc::Column::kScale, m.scale_opt_case() == pc::Column::kArbitraryScale, m.scale(), "scale");
    PBT_EQ(m.nullable_opt_case() == pc::Column::kNullable, c.nullable_.has_value());
    PBT_EQ(m.varying_opt_case() == pc::Column::kVarying, c.varying_.has_value());
    PBT_EQ(m.description_opt_case() == pc::Column::kDescription, c.description_.has_value());
    if (c.nullable_) PBT_EQ(m.nullable(), *c.nullable_);
    if (c.varying_) PBT_EQ(m.varying(), *c.varying_);
    if (c.description_) PBT_EQ(m.description(), *c.description_);
}

bool same(common_column const& a, common_column const& b) {  // independent of operator==
    return a.name_ == b.name_ && a.atom_type_ == b.atom_type_ && a.dimension_ == b.dimension_ && a.length_ == b.length_ && a.precision_ == b.precision_ &&
           a.scale_ == b.scale_ && a.nullable_ == b.nullable_ && a.varying_ == b.varying_ && a.description_ == b.description_;
}

PBT_FACET(f_col, "column description to message and back", "has a length-like and an optional attribute", .quick = 30000) {
    auto c = gen_column(s);
    s.note(c);
    if (rich(c)) s.nontrivial();
    auto m = to_proto(c);
    check_message(m, c);
    pc::Column w;
    PBT_CHECK(w.ParseFromString(m.SerializeAsString()), "wire");
    auto d = from_proto(w);
    PBT_CHECK(same(d, c), "round trip gave ", d, " for ", c);
    PBT_CHECK(d == c && !(d != c), "equality after round trip");
    PBT_EQ(has_length(w), (w.length_opt_case() == pc::Column::kLength));
    s.ops += 12;
}

PBT_FACET(f_colmsg, "column message to description", "message with at least two optional attributes", .quick = 30000) {
    // any message, including row types and types this version does not know
    pc::Column m;
    m.set_name(s.utf8(5));
    int tk = static_cast<int>(s.draw(5));
    at want = at::type_unspecified;
    if (tk <= 2) {
        auto& p = s.pick(kTypes);
        m.set_atom_type(p.second);
        want = p.first;
    } else if (tk == 3) {
        m.set_atom_type(static_cast<pc::AtomType>(s.pick({2, 3, 10, 12, 14, 23, 30, 32, 99, 1000})));
    } else if (tk == 4) {
        m.mutable_user_type()->set_name("u");
    }
    int n = 0;
    m.set_dimension(static_cast<std::uint32_t>(s.draw(3)));
    auto l = gen_len(s), p = gen_len(s), sc = gen_len(s);
    auto put = [&](opt_len const& o, auto set, auto arb) {
        if (!o) return;
        ++n;
        if (std::holds_alternative<bool>(*o)) arb();
        else set(std::get<std::uint32_t>(*o));
    };
    put(l, [&](auto v) { m.set_length(v); }, [&] { m.mutable_arbitrary_length(); });
    put(p, [&](auto v) { m.set_precision(v); }, [&] { m.mutable_arbitrary_precision(); });
    put(sc, [&](auto v) { m.set_scale(v); }, [&] { m.mutable_arbitrary_scale(); });
    auto nu = gen_flag(s), va = gen_flag(s);
    auto de = gen_desc(s);
    if (nu) m.set_nullable(*nu), ++n;
    if (va) m.set_varying(*va), ++n;
    if (de) m.set_description(*de), ++n;
    if (n >= 2) s.nontrivial();
    s.note(m.ShortDebugString());
    auto c = from_proto(m);
    common_column e{};
    e.name_ = m.name();
    e.atom_type_ = want;
    e.dimension_ = m.dimension();
    e.length_ = l;
    e.precision_ = p;
    e.scale_ = sc;
    e.nullable_ = nu;
    e.varying_ = va;
    e.description_ = de;
    PBT_CHECK(same(c, e), "got ", c, " expected ", e);
    if (tk <= 2) PBT_EQ(to_proto(c).SerializeAsString(), m.SerializeAsString());
    s.ops += 2;
}

PBT_FACET(f_coleq, "column descriptions compare by every attribute", "the two differ in exactly one attribute", .quick = 30000) {
    auto a = gen_column(s);
    auto b = a;
    auto o = gen_column(s);
    int k = static_cast<int>(s.draw(9));
    switch (k) {
        case 0: break;
        case 1: b.name_ = o.name_; break;
        case 2: b.atom_type_ = o.atom_type_; break;
        case 3: b.dimension_ = o.dimension_; break;
        case 4: b.length_ = o.length_; break;
        case 5: b.precision_ = o.precision_; break;
        case 6: b.scale_ = o.scale_; break;
        case 7: b.nullable_ = o.nullable_; break;
        case 8: b.varying_ = o.varying_; break;
        default: b.description_ = o.description_; break;
    }
    bool e = same(a, b);
    if (!e) s.nontrivial();
    s.note(a, " / ", b);
    PBT_EQ(a == b, e);
    PBT_EQ(a != b, !e);
    PBT_EQ(b == a, e);
    s.ops += 3;
    if (a.length_) PBT_EQ(is_arbitrary(a.length_), std::holds_alternative<bool>(*a.length_));
}

describe_table gen_table(Src& s) {
    describe_table t{};
    t.database_name_ = s.flip() ? s.utf8(4) : std::string{};
    t.schema_name_ = s.flip() ? s.utf8(4) : std::string{};
    t.table_name_ = s.utf8(8);
    auto n = s.size(12);
    for (std::size_t i = 0; i < n; ++i) t.columns_.push_back(gen_column(s));
    auto k = s.size(5);
    for (std::size_t i = 0; i < k; ++i) t.primary_key_.push_back(!t.columns_.empty() && s.flip() ? t.columns_[s.idx(t.columns_.size())].name_ : s.utf8(3));
    t.description_ = gen_desc(s);
    return t;
}

bool same(describe_table const& a, describe_table const& b) {
    if (a.columns_.size() != b.columns_.size()) return false;
    for (std::size_t i = 0; i < a.columns_.size(); ++i) {
        if (!same(a.columns_[i], b.columns_[i])) return false;
    }
    return a.database_name_ == b.database_name_ && a.schema_name_ == b.schema_name_ && a.table_name_ == b.table_name_ && a.primary_key_ == b.primary_key_ &&
           a.description_ == b.description_;
}

PBT_FACET(f_table, "table description to message and back", "at least two columns", .quick = 15000) {
    auto t = gen_table(s);
    s.note(t);
    if (t.columns_.size() >= 2) s.nontrivial();
    auto m = to_proto(t);
    PBT_EQ(m.database_name(), t.database_name_);
    PBT_EQ(m.schema_name(), t.schema_name_);
    PBT_EQ(m.table_name(), t.table_name_);
    PBT_EQ(static_cast<std::size_t>(m.columns_size()), t.columns_.size());
    for (int i = 0; i < m.columns_size(); ++i) check_message(m.columns(i), t.columns_[static_cast<std::size_t>(i)]);
    PBT_EQ(static_cast<std::size_t>(m.primary_key_size()), t.primary_key_.size());
    for (int i = 0; i < m.primary_key_size(); ++i) PBT_EQ(m.primary_key(i), t.primary_key_[static_cast<std::size_t>(i)]);
    PBT_EQ(m.description_opt_case() == pr::DescribeTable::Success::kDescription, t.description_.has_value());
    if (t.description_) PBT_EQ(m.description(), *t.description_);
    pr::DescribeTable::Success w;
    PBT_CHECK(w.ParseFromString(m.SerializeAsString()), "wire");
    auto d = from_proto(w);
    PBT_CHECK(same(d, t), "round trip gave ", d);
    PBT_CHECK(d == t && !(d != t), "equality after round trip");
    s.ops += 8;
    // one attribute changed
    auto o = gen_table(s);
    auto b = t;
    switch (s.draw(5)) {
        case 0: b.database_name_ = o.database_name_; break;
        case 1: b.schema_name_ = o.schema_name_; break;
        case 2: b.table_name_ = o.table_name_; break;
        case 3: b.columns_ = o.columns_; break;
        case 4: b.primary_key_ = o.primary_key_; break;
        default: b.description_ = o.description_; break;
    }
    PBT_EQ(b == t, same(b, t));
    PBT_EQ(b != t, !same(b, t));
    s.ops += 2;
}

PBT_FACET(f_print, "printed descriptions", "every case", .quick = 10000) {
    auto c = gen_column(s);
    s.nontrivial();
    std::ostringstream os;
    os << c;
    auto len = [](opt_len const& o, char const* n) {
        if (!o) return std::string{};
        return std::string(" ") + n + ":" + (std::holds_alternative<bool>(*o) ? "*" : std::to_string(std::get<std::uint32_t>(*o)));
    };
    static std::map<at, std::string> const names{{at::type_unspecified, "type_unspecified"}, {at::boolean, "boolean"}, {at::int4, "int4"}, {at::int8, "int8"},
        {at::float4, "float4"}, {at::float8, "float8"}, {at::decimal, "decimal"}, {at::character, "character"}, {at::octet, "octet"}, {at::bit, "bit"},
        {at::date, "date"}, {at::time_of_day, "time_of_day"}, {at::time_point, "time_point"}, {at::datetime_interval, "datetime_interval"},
        {at::time_of_day_with_time_zone, "time_of_day_with_time_zone"}, {at::time_point_with_time_zone, "time_point_with_time_zone"}, {at::clob, "clob"},
        {at::blob, "blob"}, {at::unknown, "unknown"}};
    std::string e = "common_column{name:\"" + c.name_ + "\" type:" + names.at(c.atom_type_) + len(c.length_, "length") + len(c.precision_, "precision") +
                    len(c.scale_, "scale");
    if (c.nullable_) e += std::string(" nullable:") + (*c.nullable_ ? "true" : "false");
    if (c.varying_) e += std::string(" varying:") + (*c.varying_ ? "true" : "false");
    if (c.description_) e += " desc:\"" + *c.description_ + "\"";
    e += "}";
    s.note(os.str());
    PBT_EQ(os.str(), e);
    ++s.ops;
}

PBT_FACET(f_debug, "one-line message rendering is JSON with the message's own field names", "message has at least two set fields", .quick = 10000) {
    auto t = gen_table(s);
    auto m = to_proto(t);
    auto text = jogasaki::utils::to_debug_string(m);
    s.note(text);
    if (!t.columns_.empty()) s.nontrivial();
    PBT_CHECK(text.find('\n') == std::string::npos, text);
    auto j = nlohmann::json::parse(text);
    auto get = [](nlohmann::json const& o, char const* k) { return o.contains(k) ? o[k].get<std::string>() : std::string{}; };
    PBT_EQ(get(j, "table_name"), t.table_name_);
    PBT_EQ(get(j, "database_name"), t.database_name_);
    PBT_EQ(get(j, "schema_name"), t.schema_name_);
    PBT_EQ((j.contains("columns") ? j["columns"].size() : 0), t.columns_.size());
    for (std::size_t i = 0; i < t.columns_.size(); ++i) {
        auto const& c = t.columns_[i];
        auto const& o = j["columns"][i];
        PBT_EQ(get(o, "name"), c.name_);
        PBT_EQ(get(o, "atom_type"), pc::AtomType_Name(m.columns(static_cast<int>(i)).atom_type()));
        PBT_EQ(o.contains("length"), (c.length_ && std::holds_alternative<std::uint32_t>(*c.length_)));
        PBT_EQ(o.contains("arbitrary_length"), (c.length_ && std::holds_alternative<bool>(*c.length_)));
        if (o.contains("length")) PBT_EQ(o["length"].get<std::uint32_t>(), std::get<std::uint32_t>(*c.length_));
        PBT_EQ(o.contains("nullable"), c.nullable_.has_value());
        if (c.nullable_) PBT_EQ(o["nullable"].get<bool>(), *c.nullable_);
        s.ops += 5;
    }
}

}  // namespace

// Error reports: what a client is told about a failed request.
#include <jogasaki/api/impl/error_info.h>
#include <jogasaki/api/impl/map_error_code.h>
#include <jogasaki/error.h>
#include <jogasaki/error/error_info.h>
#include <jogasaki/error_code.h>
#include <jogasaki/executor/diagnostic_record.h>
#include <jogasaki/status.h>
#include <jogasaki/udf/error_info.h>

#include <nlohmann/json.hpp>
#include <set>

#include "pbt.h"
#include "utf8_model.h"

using pbt::Src;
using jogasaki::error_code;
using jogasaki::status;
namespace sqlerr = jogasaki::proto::sql::error;

namespace {

#include "error_codes.inc"

std::string up(std::string_view s) {
    std::string r;
    for (char c : s) r += static_cast<char>(std::toupper(static_cast<unsigned char>(c)));
    return r;
}

std::set<std::string> const kInternal{"request_canceled", "lob_file_io_error", "lob_reference_invalid", "operation_denied", "permission_error", "unknown_internal_error"};

PBT_FACET(f_map, "error code to client code", "a code other than none", .quick = 20000) {
    auto [name, code] = s.pick(kErrorCodes);
    s.note(name);
    if (code != error_code::none) s.nontrivial();
    auto w = jogasaki::api::impl::map_error(code);
    PBT_CHECK(sqlerr::Code_IsValid(static_cast<int>(w)), name);
    // the client-visible code carries the same name, internal codes are not exposed
    std::string want = code == error_code::none ? "CODE_UNSPECIFIED" : kInternal.count(name) != 0 ? "SQL_SERVICE_EXCEPTION" : up(name);
    PBT_EQ(sqlerr::Code_Name(w), want);
    if (code != error_code::none && kInternal.count(name) == 0) PBT_EQ(static_cast<int>(jogasaki::api::impl::map_error(w)), static_cast<int>(code), name);
    PBT_EQ(std::string(jogasaki::to_string_view(code)), name);
    s.ops += 3;
}

PBT_FACET(f_unmap, "client code to error code", "a code the server can send", .quick = 20000) {
    auto [wn, c] = s.pick(kWireCodes);
    auto e = jogasaki::api::impl::map_error(static_cast<sqlerr::Code>(c));
    auto n = sqlerr::Code_Name(static_cast<sqlerr::Code>(c));
    s.note(n);
    PBT_EQ(n, std::string(wn), "number ", c, " means something else to released clients");
    if (e != error_code::none) {
        s.nontrivial();
        PBT_EQ(sqlerr::Code_Name(jogasaki::api::impl::map_error(e)), n);
    }
    for (auto& [name, code] : kErrorCodes) {
        if (code != error_code::none && kInternal.count(name) == 0 && up(name) == n) PBT_EQ(static_cast<int>(e), static_cast<int>(code), n);
    }
    s.ops += 2;
}

PBT_FACET(f_status, "status classification", "a status other than ok", .quick = 20000) {
    auto [name, st] = s.pick(kStatuses);
    s.note(name);
    bool ok = name == std::string("ok");
    bool err = std::string(name).rfind("err_", 0) == 0;
    if (!ok) s.nontrivial();
    PBT_EQ(jogasaki::is_ok(st), ok, name);
    if (st != status::waiting_for_other_transaction) {
        PBT_EQ(jogasaki::is_error(st), err, name);
        PBT_EQ(jogasaki::is_warning(st), (!ok && !err), name);
    }
    PBT_EQ(std::string(jogasaki::to_string_view(st)), std::string(name));
    std::ostringstream os;
    os << st;
    PBT_EQ(os.str(), std::string(name));
    auto [n2, st2] = s.pick(kStatuses);
    PBT_EQ(jogasaki::to_string_view(st) == jogasaki::to_string_view(st2), std::string(name) == std::string(n2));
    s.ops += 6;
}

struct parts {
    error_code code;
    std::string msg, path, pos, stacks;
};

std::string text(Src& s, std::size_t n) {
    switch (s.draw(5)) {
        case 0: return "";
        case 1: return s.chars("ab\"\\/\n\t{}:,[]\x01\x7f ", n);
        case 2: return s.chance(20) ? s.bytes(n) : s.utf8(n);
        default: return s.utf8(n);
    }
}

PBT_FACET(f_info, "error report content", "has a stack trace or additional text", .quick = 30000) {
    parts p{s.pick(kErrorCodes).second, text(s, 20), text(s, 12), s.flip() ? std::to_string(s.draw(9999)) : text(s, 4), text(s, 30)};
    auto st = s.pick(kStatuses).second;
    auto info = std::make_shared<jogasaki::error::error_info>(p.code, p.msg, p.path, p.pos, p.stacks);
    std::string add;
    bool early = s.flip();
    if (early) info->status(st);
    int n = static_cast<int>(s.draw(2));
    for (int i = 0; i < n; ++i) {
        add = text(s, 12);
        info->additional_text(add);
    }
    if (!early) info->status(st);
    if (!p.stacks.empty() || !add.empty()) s.nontrivial();
    PBT_EQ(std::string(info->message()), p.msg);
    PBT_EQ(static_cast<int>(info->code()), static_cast<int>(p.code));
    PBT_EQ(static_cast<int>(info->status()), static_cast<int>(st));
    PBT_EQ(std::string(info->source_file_path()), p.path);
    PBT_EQ(std::string(info->source_file_position()), p.pos);
    PBT_EQ(std::string(info->additional_text()), add);
    PBT_EQ(static_cast<bool>(*info), p.code != error_code::none);
    bool clean = utf8m::valid(p.path) && utf8m::valid(p.pos) && utf8m::valid(p.stacks) && utf8m::valid(add);
    auto check = [&](std::string_view sup) {
        s.note("supplemental=", sup);
        if (!clean) {
            // text that is not UTF-8 cannot be put in JSON; the report may then be left out, never be malformed
            PBT_CHECK(sup.empty() || nlohmann::json::accept(sup), pbt::hex(sup));
            return;
        }
        auto j = nlohmann::json::parse(sup);
        PBT_CHECK(j.is_object(), sup);
        PBT_EQ(j.value("source_file", std::string("?")), p.path + ":" + p.pos);
        PBT_EQ(j.contains("stacktrace"), !p.stacks.empty());
        if (!p.stacks.empty()) PBT_EQ(j["stacktrace"].get<std::string>(), p.stacks);
        PBT_EQ(j.contains("additional_text"), !add.empty(), "supplemental ", sup);
        if (!add.empty()) PBT_EQ(j["additional_text"].get<std::string>(), add);
    };
    check(info->supplemental_text());
    auto api = jogasaki::api::impl::error_info::create(info);
    PBT_CHECK(api != nullptr && api->body() == info, "api view");
    jogasaki::api::error_info const& base = *api;
    PBT_EQ(std::string(base.message()), p.msg);
    PBT_EQ(static_cast<int>(base.code()), static_cast<int>(p.code));
    PBT_EQ(static_cast<int>(base.status()), static_cast<int>(st));
    PBT_EQ(std::string(base.supplemental_text()), std::string(info->supplemental_text()));
    std::ostringstream a, b;
    a << base;
    b << *info;
    PBT_EQ(a.str(), b.str());
    PBT_CHECK(a.str().find(p.msg) != std::string::npos, a.str());
    auto copy = *info;
    PBT_EQ(std::string(copy.supplemental_text()), std::string(info->supplemental_text()));
    s.ops += 18;
}

PBT_FACET(f_none, "an absent report stays absent", "every case", .quick = 500) {
    (void) s;
    s.nontrivial();
    PBT_CHECK(jogasaki::api::impl::error_info::create(nullptr) == nullptr, "null");
    jogasaki::error::error_info e{};
    PBT_CHECK(!e && e.message().empty() && e.supplemental_text().empty(), "default report");
    ++s.ops;
}

PBT_FACET(f_diag, "diagnostic records keep their arguments in order", "at least two arguments", .quick = 10000) {
    std::string m = s.utf8(8);
    long code = s.range(-5, 100000);
    jogasaki::executor::diagnostic_record<long> r{code, m};
    auto n = s.size(6);
    std::string e;
    for (std::size_t i = 0; i < n; ++i) {
        auto t = s.utf8(5);
        auto v = s.range(-100, 100);
        r.new_argument() << t << "|" << v;
        e += (i ? ", '" : "'") + t + "|" + std::to_string(v) + "'";
    }
    if (n > 1) s.nontrivial();
    std::ostringstream os;
    os << r;
    PBT_EQ(os.str(), "diagnostic(code=" + std::to_string(code) + ", message='" + m + "'" + (n ? ", args=[" + e + "]" : "") + ")");
    PBT_EQ(r.arguments().size(), n);
    s.ops += 2;
}

}  // namespace

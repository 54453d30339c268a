// UDF definitions: call patterns, descriptor analysis, duplicate detection, load outcomes.
#include "pbt.h"

#include <filesystem>
#include <fstream>
#include <memory>
#include <set>
#include <unistd.h>

#include <google/protobuf/descriptor.pb.h>
#include <glog/logging.h>

#include <jogasaki/udf/descriptor/descriptor_analyzer.h>
#include <jogasaki/udf/descriptor/descriptor_reader.h>
#include <jogasaki/udf/descriptor/validation/message_duplicate_validator.h>
#include <jogasaki/udf/descriptor/validation/rpc_duplicate_validator.h>
#include <jogasaki/udf/descriptor_impl.h>
#include <jogasaki/udf/error_info.h>
#include <jogasaki/udf/plugin_api.h>
#include <jogasaki/udf/udf_config.h>

using namespace pbt;
using namespace plugin::udf;
namespace ud = jogasaki::udf::descriptor;

static bool quiet_log = [] {
    FLAGS_minloglevel = 4;
    FLAGS_logtostderr = true;
    return true;
}();

PBT_FACET(patterns, "argument-patterns", "two or more alternative groups, one with several members interleaved with plain columns", .quick = 100000) {
    // a call pattern picks exactly one member of every oneof group; the position of a group is its first member
    std::size_t n = s.size(9);
    std::vector<std::unique_ptr<column_descriptor_impl>> own;
    std::vector<column_descriptor*> cols;
    std::vector<std::string> names;
    std::vector<std::optional<std::size_t>> grp;
    std::size_t total = 1;
    std::map<std::size_t, std::size_t> cnt;
    names.reserve(n);
    for (std::size_t i = 0; i < n; ++i) {
        names.push_back("c" + std::to_string(i));
        std::optional<std::size_t> g;
        if (s.chance(60)) g = s.draw(3) * (s.chance(10) ? 7 : 1);
        if (g) {
            cnt[*g]++;
            std::size_t t = 1;
            for (auto& [k, v] : cnt) t *= v;
            if (t > 200) {
                cnt[*g]--;
                g = std::nullopt;
            }
        }
        bool p3 = s.chance(20);
        auto kind = static_cast<type_kind>(s.draw(17));
        own.push_back(std::make_unique<column_descriptor_impl>(i, names.back(), kind, nullptr, g,
            g ? std::optional<std::string_view>("grp") : std::nullopt, p3));
        auto& c = *own.back();
        PBT_EQ(c.index(), i);
        PBT_EQ(c.column_name(), std::string_view(names.back()));
        PBT_EQ(static_cast<int>(c.type_kind()), static_cast<int>(kind));
        PBT_EQ(c.has_oneof(), g.has_value());
        PBT_CHECK(c.oneof_index() == g, "oneof index");
        PBT_EQ(c.oneof_name().has_value(), g.has_value());
        PBT_EQ(c.proto3_optional(), p3);
        PBT_EQ(c.optional(), p3 && g.has_value());
        PBT_CHECK(c.nested() == nullptr, "nested");
        cols.push_back(&c);
        grp.push_back(g);
        s.note("c", i, g ? " group " + std::to_string(*g) : "");
    }
    record_descriptor_impl r{"rec", cols};
    PBT_EQ(r.record_name(), std::string_view("rec"));
    PBT_CHECK(r.columns() == cols, "columns changed");
    // reference: enumerate by mixed-radix counting over slots
    std::vector<std::vector<column_descriptor*>> slots;
    std::map<std::size_t, std::size_t> where;
    for (std::size_t i = 0; i < n; ++i) {
        if (!grp[i]) {
            slots.push_back({cols[i]});
        } else if (auto it = where.find(*grp[i]); it != where.end()) {
            slots[it->second].push_back(cols[i]);
        } else {
            where[*grp[i]] = slots.size();
            slots.push_back({cols[i]});
        }
    }
    for (auto& x : slots) total *= x.size();
    std::vector<std::vector<column_descriptor*>> expected;
    for (std::size_t k = 0; k < total; ++k) {
        std::vector<column_descriptor*> p(slots.size());
        std::size_t z = k;
        for (std::size_t j = slots.size(); j-- > 0;) {
            p[j] = slots[j][z % slots[j].size()];
            z /= slots[j].size();
        }
        expected.push_back(std::move(p));
    }
    auto const& got = r.argument_patterns();
    PBT_EQ(got.size(), total, "number of call patterns");
    std::set<std::vector<column_descriptor*>> a(got.begin(), got.end()), b(expected.begin(), expected.end());
    PBT_CHECK(a == b, "set of call patterns differs");
    PBT_EQ(a.size(), total, "duplicate call pattern");
    s.ops += total + n * 6;
    std::size_t multi = 0;
    for (auto& [k, v] : cnt) multi += v > 1;
    if (cnt.size() >= 2 && multi >= 1 && slots.size() > cnt.size()) s.nontrivial();
}

PBT_FACET(tree, "descriptor-tree", "package with two services and three functions", .quick = 20000) {
    std::vector<std::unique_ptr<record_descriptor_impl>> recs;
    std::vector<std::unique_ptr<function_descriptor_impl>> fns;
    std::vector<std::unique_ptr<service_descriptor_impl>> svs;
    std::vector<service_descriptor*> svp;
    std::vector<std::string> names;
    names.reserve(200);
    auto name = [&](char c) -> std::string_view {
        names.push_back(std::string(1, c) + std::to_string(names.size()));
        return names.back();
    };
    std::size_t ns = s.draw(3);
    std::vector<std::vector<function_descriptor*>> all;
    for (std::size_t i = 0; i < ns; ++i) {
        std::vector<function_descriptor*> fp;
        std::size_t nf = s.draw(3);
        for (std::size_t j = 0; j < nf; ++j) {
            recs.push_back(std::make_unique<record_descriptor_impl>(name('r'), std::vector<column_descriptor*>{}));
            auto* in = recs.back().get();
            recs.push_back(std::make_unique<record_descriptor_impl>(name('r'), std::vector<column_descriptor*>{}));
            auto* out = recs.back().get();
            auto k = static_cast<function_kind>(s.draw(3));
            auto nm = name('f');
            fns.push_back(std::make_unique<function_descriptor_impl>(j, nm, k, in, out));
            auto& f = *fns.back();
            PBT_CHECK(f.function_index() == j && f.function_name() == nm && f.function_kind() == k, "function attributes");
            PBT_CHECK(&f.input_record() == in && &f.output_record() == out, "input/output records swapped or lost");
            PBT_EQ(in->argument_patterns().size(), 1U, "a record without columns has exactly the empty pattern");
            PBT_CHECK(in->argument_patterns()[0].empty(), "empty pattern");
            fp.push_back(&f);
        }
        auto nm = name('s');
        svs.push_back(std::make_unique<service_descriptor_impl>(i, nm, fp));
        PBT_CHECK(svs.back()->service_index() == i && svs.back()->service_name() == nm && svs.back()->functions() == fp, "service attributes");
        svp.push_back(svs.back().get());
        all.push_back(fp);
    }
    package_version v{s.draw(3), s.draw(3), s.draw(3)};
    package_version w{s.draw(3), s.draw(3), s.draw(3)};
    package_descriptor_impl p{"pkg", "file.proto", v, svp};
    PBT_CHECK(p.package_name() == "pkg" && p.file_name() == "file.proto" && p.services() == svp && p.version() == v, "package attributes");
    auto t = [](package_version const& x) { return std::make_tuple(x.major(), x.minor(), x.patch()); };
    PBT_EQ(v < w, t(v) < t(w));
    PBT_EQ(w < v, t(w) < t(v));
    PBT_EQ(v == w, t(v) == t(w));
    s.ops += 6 + fns.size() * 4;
    s.note(ns, " services, ", fns.size(), " functions");
    if (ns >= 2 && fns.size() >= 3) s.nontrivial();
}

// ---- descriptor files --------------------------------------------------------------------------------
struct tmpdir {
    tmpdir() {
        char t[] = "/tmp/udfdesc.XXXXXX";
        path = mkdtemp(t);
    }
    ~tmpdir() {
        std::error_code ec;
        for (auto& f : files) std::filesystem::remove(f, ec);
        std::filesystem::remove(path, ec);
    }
    std::filesystem::path add(std::string const& n, std::string const& content) {
        auto p = path / n;
        std::ofstream(p, std::ios::binary) << content;
        files.push_back(p);
        return p;
    }
    std::filesystem::path path;
    std::vector<std::filesystem::path> files;
};

namespace gp = google::protobuf;

struct collector {
    std::map<std::string, std::pair<std::set<std::string>, std::set<std::string>>> msgs;
    std::vector<std::array<std::string, 4>> rpcs;
};

static std::string short_name(Src& s) { return std::string(1 + (s.chance(10) ? s.draw(30) : 0), static_cast<char>('A' + s.draw(3))); }

static void gen_message(Src& s, gp::DescriptorProto& m, std::string const& pkg, std::string const& outer, std::string const& file, collector& c, int depth) {
    m.set_name(short_name(s));
    std::string full = (pkg.empty() ? "" : "." + pkg) + outer + "." + m.name();
    c.msgs[full].first.insert(file);
    std::size_t nf = s.draw(2);
    for (std::size_t i = 0; i < nf; ++i) {
        auto* f = m.add_field();
        f->set_name("f" + std::to_string(i));
        f->set_number(static_cast<int>(i) + 1);
        if (s.flip()) {
            bool isenum = s.chance(25);
            f->set_type(isenum ? gp::FieldDescriptorProto::TYPE_ENUM : gp::FieldDescriptorProto::TYPE_MESSAGE);
            std::string t = s.chance(50) ? "." + short_name(s) : short_name(s);
            if (s.chance(30)) t = (t[0] == '.' ? "." : "") + std::string("p.") + short_name(s);
            if (s.chance(5)) t.clear();
            f->set_type_name(t);
            if (!isenum && !t.empty()) c.msgs[t[0] == '.' ? t : "." + t].second.insert(file);
        } else {
            f->set_type(static_cast<gp::FieldDescriptorProto::Type>(s.pick({5, 3, 4, 1, 2, 8, 9, 12, 13, 17, 18})));
        }
        // what else a field may carry changes nothing
        if (s.chance(40)) f->set_label(static_cast<gp::FieldDescriptorProto::Label>(s.range(1, 3)));
        if (s.chance(15)) f->set_oneof_index(0);
        if (s.chance(15)) f->set_proto3_optional(true);
        if (s.chance(15)) f->set_json_name(short_name(s));
        if (s.chance(10)) f->mutable_options()->set_deprecated(true);
    }
    if (s.chance(10)) m.add_oneof_decl()->set_name(short_name(s));
    if (s.chance(10)) m.mutable_options()->set_map_entry(true);
    if (s.chance(10)) m.add_enum_type()->set_name(short_name(s));
    if (depth < 5) {
        std::size_t nn = s.draw(depth == 0 ? 2 : 1);
        for (std::size_t i = 0; i < nn; ++i) gen_message(s, *m.add_nested_type(), pkg, outer + "." + m.name(), file, c, depth + 1);
    }
}

static void gen_file(Src& s, gp::FileDescriptorProto& f, collector& c) {
    std::string file = "f" + std::to_string(s.draw(3)) + ".proto";
    f.set_name(file);
    std::string pkg = s.pick<std::string>({"", "p", "p.q", "A"});
    if (!pkg.empty() || s.flip()) f.set_package(pkg);
    std::size_t nm = s.draw(3);
    for (std::size_t i = 0; i < nm; ++i) gen_message(s, *f.add_message_type(), pkg, "", file, c, 0);
    if (s.chance(30)) f.set_syntax("proto3");
    if (s.chance(20)) f.add_dependency("f" + std::to_string(s.draw(3)) + ".proto");
    if (s.chance(20)) f.add_enum_type()->set_name(short_name(s));
    if (s.chance(10)) f.mutable_options()->set_deprecated(true);
    std::size_t ns = s.draw(2);
    for (std::size_t i = 0; i < ns; ++i) {
        auto* sv = f.add_service();
        sv->set_name("S" + std::to_string(s.draw(1)));
        std::size_t nr = s.draw(2);
        for (std::size_t j = 0; j < nr; ++j) {
            auto* me = sv->add_method();
            me->set_name("m" + std::to_string(s.draw(12)));
            for (int k = 0; k < 2; ++k) {
                std::string t = (s.flip() ? "." : "") + std::string(s.flip() ? "p." : "") + short_name(s);
                if (s.chance(10)) t.clear();
                if (k == 0) me->set_input_type(t); else me->set_output_type(t);
                if (!t.empty()) c.msgs[t[0] == '.' ? t : "." + t].second.insert(file);
            }
            if (s.chance(30)) me->set_server_streaming(s.flip());
            if (s.chance(30)) me->set_client_streaming(s.flip());
            if (s.chance(10)) me->mutable_options()->set_deprecated(true);
            c.rpcs.push_back({file, sv->name(), me->name(), "/" + (pkg.empty() ? "" : pkg + ".") + sv->name() + "/" + me->name()});
        }
    }
}

PBT_FACET(analysis, "descriptor-analysis", "several readable files together with a duplicate or an unreadable one", .quick = 24000) {
    tmpdir dir;
    std::size_t nfiles = s.size(4);
    std::vector<std::filesystem::path> paths;
    collector c;
    std::vector<std::pair<std::filesystem::path, descriptor_read_status>> bad;
    for (std::size_t i = 0; i < nfiles; ++i) {
        std::string fn = "d" + std::to_string(i) + ".desc.pb";
        switch (s.draw(7)) {
            case 6: {
                auto p = dir.path / ("missing" + std::to_string(i));
                paths.push_back(p);
                bad.emplace_back(p, descriptor_read_status::descriptor_open_failed);
                s.note("missing file");
                break;
            }
            case 7: {  // not a descriptor: a truncated length-delimited field
                std::string junk = "\x0a\x7f";
                junk += std::string(s.draw(20), 'x');
                auto p = dir.add(fn, junk);
                paths.push_back(p);
                bad.emplace_back(p, descriptor_read_status::descriptor_parse_failed);
                s.note("malformed file");
                break;
            }
            default: {
                gp::FileDescriptorSet set;
                std::size_t k = s.draw(2);
                for (std::size_t j = 0; j < k; ++j) gen_file(s, *set.add_file(), c);
                std::string ser;
                set.SerializeToString(&ser);
                paths.push_back(dir.add(fn, ser));
                gp::FileDescriptorSet back;
                PBT_EQ(static_cast<int>(ud::read_file_descriptor_set(paths.back(), back)), static_cast<int>(descriptor_read_status::ok));
                PBT_EQ(back.SerializeAsString(), ser, "descriptor content changed by reading");
                for (auto& f : set.file()) s.note(f.ShortDebugString());
                break;
            }
        }
    }
    auto r = ud::analyze_descriptors(paths);
    PBT_EQ(r.has_error(), !bad.empty());
    PBT_EQ(r.errors().size(), bad.size(), "one error per unreadable file");
    for (std::size_t i = 0; i < bad.size(); ++i) {
        PBT_CHECK(r.errors()[i].path == bad[i].first, "wrong path reported");
        PBT_EQ(static_cast<int>(r.errors()[i].status), static_cast<int>(bad[i].second));
    }
    PBT_EQ(r.rpc_methods().size(), c.rpcs.size(), "number of functions");
    for (std::size_t i = 0; i < c.rpcs.size(); ++i) {
        auto& e = r.rpc_methods()[i];
        PBT_EQ(e.proto_file_name, c.rpcs[i][0]);
        PBT_EQ(e.service_name, c.rpcs[i][1]);
        PBT_EQ(e.method_name, c.rpcs[i][2]);
        PBT_EQ(e.full_rpc_path, c.rpcs[i][3]);
    }
    auto& info = r.message_info();
    for (auto& [k, v] : c.msgs) {
        auto it = info.find(k);
        PBT_CHECK(it != info.end(), "message ", k, " not reported");
        PBT_CHECK(it->second.defining_protos == v.first, "definitions of ", k);
        PBT_CHECK(it->second.referring_protos == v.second, "references to ", k);
    }
    PBT_EQ(info.size(), c.msgs.size(), "number of messages");
    std::map<std::string, std::set<std::string>> dup;
    for (auto& [k, v] : c.msgs)
        if (v.first.size() > 1) dup[k] = v.first;
    auto d = ud::validation::filter_message_definition_duplicates(info);
    PBT_EQ(d.size(), dup.size(), "messages defined by more than one file");
    for (auto& [k, v] : dup) {
        PBT_CHECK(d.count(k) == 1, "duplicate ", k, " missed");
        PBT_CHECK(d[k].defining_protos == v, "defining files of duplicate ", k);
        PBT_CHECK(d[k].referring_protos == c.msgs[k].second, "referring files of duplicate ", k);
    }
    std::set<std::string> mset;
    bool rdup = false;
    for (auto& x : c.rpcs) rdup = !mset.insert(x[2]).second || rdup;
    PBT_EQ(static_cast<int>(ud::validation::validate_rpc_method_duplicates(r.rpc_methods())),
        static_cast<int>(rdup ? rpc_duplicate_check_status::rpc_name_duplicated : rpc_duplicate_check_status::ok), "duplicate function names");
    s.ops += 6 + c.rpcs.size() * 4 + c.msgs.size() * 3;
    if (rdup) s.label("duplicate function");
    if (!dup.empty()) s.label("duplicate message");
    if (!bad.empty()) s.label("unreadable file");
    if (c.rpcs.size() > 1 && !rdup) s.label("distinct functions");
    if (nfiles - bad.size() >= 2 && (rdup || !dup.empty() || !bad.empty())) s.nontrivial();
}

PBT_FACET(junk, "descriptor-junk", "input is accepted, or longer than 8 bytes and rejected", .quick = 12000) {
    // arbitrary or damaged content is read or rejected, and never lets the analysis fail
    tmpdir dir;
    std::string content;
    if (s.flip()) {
        content = s.bytes(100);
    } else {
        gp::FileDescriptorSet set;
        collector c;
        gen_file(s, *set.add_file(), c);
        set.SerializeToString(&content);
        std::size_t k = s.draw(3);
        for (std::size_t i = 0; i < k && !content.empty(); ++i) content[s.idx(content.size())] = static_cast<char>(s.draw(255));
        if (s.chance(30)) content.resize(s.draw(content.size()));
    }
    auto p = dir.add("x", content);
    gp::FileDescriptorSet ref;
    bool ok = ref.ParseFromString(content);
    auto r = ud::analyze_descriptors({p});
    PBT_EQ(r.has_error(), !ok, "accepted iff it is a descriptor set");
    if (!ok) {
        PBT_CHECK(r.rpc_methods().empty() && r.message_info().empty(), "content reported from a rejected file");
        PBT_EQ(static_cast<int>(r.errors()[0].status), static_cast<int>(descriptor_read_status::descriptor_parse_failed));
    }
    s.note("content=", show(content), " ok=", ok);
    s.ops += 2;
    if (ok || content.size() > 8) s.nontrivial();
}

PBT_FACET(names, "load-results", "always", .quick = 8000) {
    // names of statuses are distinct and non-empty, outcomes are classified; configuration is reported as given
    static std::vector<load_status> const all = {load_status::ok, load_status::path_is_empty, load_status::path_not_found,
        load_status::message_name_duplicated, load_status::no_ini_files, load_status::no_ini_and_so_files, load_status::ini_so_pair_mismatch,
        load_status::ini_invalid, load_status::not_regular_file_or_dir, load_status::udf_disabled, load_status::deps_not_found,
        load_status::no_shared_objects_found, load_status::dlopen_failed, load_status::descriptor_open_failed,
        load_status::descriptor_parse_failed, load_status::api_symbol_missing, load_status::api_init_failed,
        load_status::factory_symbol_missing, load_status::factory_creation_failed, load_status::rpc_name_duplicated};
    auto a = s.pick(all), b = s.pick(all);
    PBT_EQ(to_string_view(a) == to_string_view(b), a == b, "status names ", to_string_view(a));
    PBT_CHECK(to_string_view(a) != "unknown_status", "unnamed status ", static_cast<int>(a));
    // only "ok" is a success; hard failures are those after a usable module was found, or a missing path
    static std::set<load_status> const fail = {load_status::path_not_found, load_status::rpc_name_duplicated, load_status::dlopen_failed,
        load_status::api_symbol_missing, load_status::api_init_failed, load_status::factory_symbol_missing, load_status::factory_creation_failed,
        load_status::descriptor_open_failed, load_status::descriptor_parse_failed};
    auto o = classify(a);
    PBT_EQ(static_cast<int>(o), static_cast<int>(a == load_status::ok ? load_outcome::ok : fail.count(a) ? load_outcome::fail : load_outcome::skipped),
        "outcome of ", to_string_view(a));
    auto f = s.bytes(10), d = s.bytes(10), f2 = s.bytes(10), d2 = s.bytes(10);
    load_result r{a, f, d};
    PBT_CHECK(r.status() == a && r.file() == f && r.detail() == d, "load result content");
    r.set_status(b);
    PBT_CHECK(r.status() == b && r.file() == f && r.detail() == d, "set_status");
    r.set_file(f2);
    PBT_CHECK(r.status() == b && r.file() == f2 && r.detail() == d, "set_file");
    r.set_detail(d2);
    PBT_CHECK(r.status() == b && r.file() == f2 && r.detail() == d2, "set_detail");
    int c1 = static_cast<int>(s.range(0, 16)), c2 = static_cast<int>(s.range(0, 16));
    auto g1 = static_cast<grpc::StatusCode>(c1), g2 = static_cast<grpc::StatusCode>(c2);
    PBT_EQ(to_string_view(g1) == to_string_view(g2), c1 == c2, "RPC status names");
    static char const* const rpc[] = {"OK", "CANCELLED", "UNKNOWN", "INVALID_ARGUMENT", "DEADLINE_EXCEEDED", "NOT_FOUND", "ALREADY_EXISTS",
        "PERMISSION_DENIED", "RESOURCE_EXHAUSTED", "FAILED_PRECONDITION", "ABORTED", "OUT_OF_RANGE", "UNIMPLEMENTED", "INTERNAL", "UNAVAILABLE",
        "DATA_LOSS", "UNAUTHENTICATED"};
    PBT_EQ(to_string_view(g1), std::string_view(rpc[c1]));
    std::ostringstream os;
    os << g1 << "/" << a << "/" << o;
    PBT_EQ(os.str(), std::string(rpc[c1]) + "/" + std::string(to_string_view(a)) + "/" + std::string(to_string_view(o)));
    bool en = s.flip(), se = s.flip();
    std::optional<std::string> srv;
    if (s.flip()) srv = s.bytes(10);
    std::optional<std::size_t> to;
    if (s.flip()) to = s.draw(100000);
    udf_config c{en, f, d, se, srv, to};
    udf_config cc = c;
    PBT_CHECK(cc.enabled() == en && cc.endpoint() == f && cc.transport() == d && cc.secure() == se && cc.grpc_server_endpoint() == srv && cc.timeout() == to,
        "configuration not reported as given");
    error_info e{g1, f};
    PBT_CHECK(e.code() == g1 && e.message() == f, "error info");
    std::ostringstream k1, k2;
    auto tk = static_cast<type_kind>(s.draw(17)), tk2 = static_cast<type_kind>(s.draw(17));
    k1 << tk;
    k2 << tk2;
    PBT_EQ(k1.str() == k2.str(), tk == tk2, "type kind names");
    PBT_CHECK(k1.str() != "UnknownTypeKind", "unnamed type kind");
    s.note(to_string_view(a), " ", to_string_view(o), " ", k1.str());
    s.ops += 16;
    s.nontrivial();
}

// The server's settings as the engine receives them, and the engine's life within the server.
#include <jogasaki/api/database.h>
#include <jogasaki/api/resource/bridge.h>
#include <jogasaki/api/statement_handle.h>
#include <jogasaki/api/transaction_handle.h>
#include <jogasaki/configuration.h>
#include <jogasaki/executor/global.h>
#include <jogasaki/utils/convert_offset_string.h>

#include <boost/thread.hpp>
#include <data_relay_grpc/blob_relay/service.h>
#include <tateyama/framework/environment.h>
#include <tateyama/framework/transactional_kvs_resource.h>
#include <tateyama/grpc/blob_relay/service_adapter.h>

#include <functional>
#include <map>
#include <optional>
#include <set>
#include <sstream>

#include "pbt.h"

using pbt::Src;
namespace jg = jogasaki;
namespace fw = tateyama::framework;
using whole = tateyama::api::configuration::whole;

namespace {

enum class kind { flag, number, writers, text, path, commit, distribution, offset };

struct key {
    char const* section;
    char const* name;   // as the operator writes it
    kind k;
    char const* prop;   // the property of the engine it sets
};

const std::vector<key> keys{
    {"sql", "thread_pool_size", kind::number, "thread_pool_size"},
    {"sql", "prepare_analytics_benchmark_tables", kind::flag, "prepare_analytics_benchmark_tables"},
    {"sql", "max_result_set_writers", kind::writers, "max_result_set_writers"},
    {"sql", "default_partitions", kind::number, "default_partitions"},
    {"sql", "stealing_enabled", kind::flag, "stealing_enabled"},
    {"sql", "enable_index_join", kind::flag, "enable_index_join"},
    {"sql", "use_preferred_worker_for_current_thread", kind::flag, "use_preferred_worker_for_current_thread"},
    {"sql", "stealing_wait", kind::number, "stealing_wait"},
    {"sql", "task_polling_wait", kind::number, "task_polling_wait"},
    {"sql", "enable_hybrid_scheduler", kind::flag, "enable_hybrid_scheduler"},
    {"sql", "lightweight_job_level", kind::number, "lightweight_job_level"},
    {"sql", "busy_worker", kind::flag, "busy_worker"},
    {"sql", "watcher_interval", kind::number, "watcher_interval"},
    {"sql", "worker_try_count", kind::number, "worker_try_count"},
    {"sql", "worker_suspend_timeout", kind::number, "worker_suspend_timeout"},
    {"sql", "lowercase_regular_identifiers", kind::flag, "lowercase_regular_identifiers"},
    {"sql", "dev_enable_blob_cast", kind::flag, "enable_blob_cast"},
    {"sql", "commit_response", kind::commit, "default_commit_response"},
    {"sql", "dev_profile_commits", kind::flag, "profile_commits"},
    {"sql", "dev_return_os_pages", kind::flag, "return_os_pages"},
    {"sql", "dev_omit_task_when_idle", kind::flag, "omit_task_when_idle"},
    {"sql", "plan_recording", kind::flag, "plan_recording"},
    {"sql", "dev_try_insert_on_upserting_secondary", kind::flag, "try_insert_on_upserting_secondary"},
    {"sql", "dev_support_boolean", kind::flag, "support_boolean"},
    {"sql", "dev_support_smallint", kind::flag, "support_smallint"},
    {"sql", "dev_scan_concurrent_operation_as_not_found", kind::flag, "scan_concurrent_operation_as_not_found"},
    {"sql", "dev_point_read_concurrent_operation_as_not_found", kind::flag, "point_read_concurrent_operation_as_not_found"},
    {"sql", "scan_block_size", kind::number, "scan_block_size"},
    {"sql", "scan_yield_interval", kind::number, "scan_yield_interval"},
    {"sql", "dev_thousandths_ratio_check_local_first", kind::number, "thousandths_ratio_check_local_first"},
    {"sql", "dev_direct_commit_callback", kind::flag, "direct_commit_callback"},
    {"sql", "scan_default_parallel", kind::number, "scan_default_parallel"},
    {"sql", "dev_inplace_teardown", kind::flag, "inplace_teardown"},
    {"sql", "dev_inplace_dag_schedule", kind::flag, "inplace_dag_schedule"},
    {"sql", "enable_join_scan", kind::flag, "enable_join_scan"},
    {"sql", "dev_rtx_key_distribution", kind::distribution, "key_distribution"},
    {"sql", "dev_initial_core", kind::number, "initial_core"},
    {"sql", "dev_core_affinity", kind::flag, "core_affinity"},
    {"sql", "dev_assign_numa_nodes_uniformly", kind::flag, "assign_numa_nodes_uniformly"},
    {"sql", "dev_force_numa_node", kind::number, "force_numa_node"},
    {"sql", "dev_enable_session_store", kind::flag, "enable_session_store"},
    {"sql", "dev_log_msg_user_data", kind::flag, "log_msg_user_data"},
    {"sql", "dev_enable_disjunction_range_hinting", kind::flag, "enable_disjunction_range_hinting"},
    {"sql", "dev_apply_max_polls", kind::number, "apply_max_polls"},
    {"sql", "dev_enable_maintenance_thread", kind::flag, "enable_maintenance_thread"},
    {"sql", "dev_maintenance_interval_ms", kind::number, "maintenance_interval_ms"},
    {"sql", "dev_enable_truncate", kind::flag, "enable_truncate"},
    {"session", "zone_offset", kind::offset, "zone_offset"},
    {"udf", "plugin_directory", kind::path, "plugin_directory"},
    {"udf", "endpoint", kind::text, "endpoint"},
    {"udf", "secure", kind::flag, "secure"},
    {"udf", "timeout", kind::number, "udf_client_timeout"},
    {"grpc_server", "endpoint", kind::text, "grpc_server_endpoint"},
    {"grpc_server", "secure", kind::flag, "grpc_server_secure"},
};

using shown = std::map<std::string, std::string>;

template <class T>
std::string str(T const& v) {
    std::ostringstream o;
    o << std::boolalpha << v;
    return o.str();
}

// every property the engine reads from its configuration, as text
shown properties(jg::configuration const& c) {
    shown r;
#define P(x) r[#x] = str(c.x())
    P(single_thread); P(thread_pool_size); P(default_partitions); P(core_affinity); P(initial_core); P(use_sorted_vector); P(noop_pregroup);
    P(assign_numa_nodes_uniformly); P(randomize_memory_usage); P(force_numa_node); P(prepare_analytics_benchmark_tables); P(stealing_enabled);
    P(db_location); P(scheduler_rr_workers); P(activate_scheduler); P(enable_index_join); P(use_preferred_worker_for_current_thread);
    P(stealing_wait); P(task_polling_wait); P(lightweight_job_level); P(enable_hybrid_scheduler); P(busy_worker); P(watcher_interval);
    P(worker_try_count); P(worker_suspend_timeout); P(default_commit_response); P(profile_commits); P(skip_smv_check); P(return_os_pages);
    P(omit_task_when_idle); P(trace_external_log); P(plan_recording); P(try_insert_on_upserting_secondary); P(support_boolean);
    P(support_smallint); P(scan_concurrent_operation_as_not_found); P(point_read_concurrent_operation_as_not_found); P(normalize_float);
    P(log_msg_user_data); P(lowercase_regular_identifiers); P(scan_block_size); P(scan_yield_interval); P(zone_offset);
    P(thousandths_ratio_check_local_first); P(direct_commit_callback); P(scan_default_parallel); P(inplace_teardown); P(inplace_dag_schedule);
    P(enable_join_scan); P(key_distribution); P(mock_datastore); P(enable_blob_cast); P(max_result_set_writers); P(enable_session_store);
    P(enable_storage_key); P(enable_maintenance_thread); P(maintenance_interval_ms); P(plugin_directory); P(endpoint); P(secure);
    P(enable_disjunction_range_hinting); P(enable_truncate); P(grpc_server_endpoint); P(grpc_server_secure); P(udf_pass_mock_tag);
    P(apply_max_polls); P(udf_client_timeout);
#undef P
    return r;
}

std::string any_case(Src& s, std::string v) {
    for (auto& c : v) {
        if (s.flip()) c = static_cast<char>(::toupper(c));
    }
    return v;
}

struct value {
    std::string text;             // as written
    std::optional<std::string> is;  // what the property becomes, nothing: refused
};

value gen_offset(Src& s) {
    auto two = [](std::uint32_t v) { return (v < 10 ? "0" : "") + std::to_string(v); };
    switch (s.draw(9)) {
        case 0: return {"", "0"};
        case 1: return {s.flip() ? "Z" : "z", "0"};
        case 2: return {s.pick<std::string>({"09:00", "+", "-", "+25:00", "+01:60", "UTC", "+9:0:0", "+-9", "++09:00", "+09:00 ", " +09:00", "+09:", "+100", "Asia/Tokyo", "-1:99", "\xff"}), std::nullopt};
        default: {
            auto h = static_cast<std::int32_t>(s.chance(20) ? 0 : s.range(0, 18));
            auto m = static_cast<std::int32_t>(s.chance(40) ? 0 : s.range(0, 59));
            bool minus = s.flip();
            return {(minus ? "-" : "+") + two(h) + ":" + two(m), std::to_string((minus ? -1 : 1) * (60 * h + m))};
        }
    }
}

value gen_value(Src& s, kind k, bool bad) {
    switch (k) {
        case kind::flag:
            if (bad) return {s.pick<std::string>({"yes", "", "2", "TRUEE", "tru", "-1", "on "}), std::nullopt};
            {
                bool v = s.flip();
                return {s.flip() ? (v ? "true" : "false") : (v ? "1" : "0"), v ? "true" : "false"};
            }
        case kind::number: {
            if (bad) return {s.pick<std::string>({"", "-1", "1.5", "0x10", "ten", "1 000", "99999999999999999999999"}), std::nullopt};
            auto v = std::to_string(s.chance(20) ? s.draw(1'000'000'000'000'000'000ULL) : s.draw(s.flip() ? 3 : 300));
            return {v, v};
        }
        case kind::writers: {
            if (bad) return {s.pick<std::string>({"0", "257", "258", "300", "512", "65536", "4294967297", "1000000000000", "-1", "", "some"}), std::nullopt};
            auto v = std::to_string(s.chance(30) ? s.pick({1, 2, 255, 256}) : s.range(1, 256));
            return {v, v};
        }
        case kind::text: {
            auto v = s.chars("abc:/.0159-_", 24);
            return {v, v};
        }
        case kind::path: {
            if (bad) return {"", std::nullopt};
            auto v = s.chars("abc/._-01", 24);
            if (v.empty()) v = "/opt/udf";
            return {v, v};
        }
        case kind::commit: {
            if (bad) return {s.pick<std::string>({"", "commit", "UNDEFINED", "accepted ", "avail", "STORED,PROPAGATED", "0", "2"}), std::nullopt};
            auto v = s.pick<std::string>({"accepted", "available", "stored", "propagated"});
            return {any_case(s, v), v};
        }
        case kind::distribution: {
            if (bad) return {s.pick<std::string>({"", "random", "undefined", "simple ", "uniforms", "1"}), std::nullopt};
            auto v = s.pick<std::string>({"simple", "uniform", "sampling"});
            return {any_case(s, v), v};
        }
        case kind::offset: {
            if (bad) {
                return {s.pick<std::string>({"09:00", "+", "+25:00", "+01:60", "UTC", "JST", "+100", "-"}), std::nullopt};
            }
            for (;;) {
                auto v = gen_offset(s);
                if (v.is) return v;
            }
        }
    }
    std::abort();
}

// the defaults operators are told of
const shown documented{
    {"default_partitions", "5"}, {"stealing_enabled", "true"}, {"enable_index_join", "true"}, {"use_preferred_worker_for_current_thread", "true"},
    {"stealing_wait", "1"}, {"task_polling_wait", "0"}, {"enable_hybrid_scheduler", "true"}, {"lightweight_job_level", "0"}, {"busy_worker", "false"},
    {"watcher_interval", "1000"}, {"worker_try_count", "1000"}, {"worker_suspend_timeout", "1000000"}, {"default_commit_response", "stored"},
    {"lowercase_regular_identifiers", "false"}, {"plan_recording", "true"}, {"scan_block_size", "100"}, {"scan_yield_interval", "1"},
    {"scan_default_parallel", "4"}, {"enable_join_scan", "true"}, {"max_result_set_writers", "64"}, {"zone_offset", "0"},
    {"plugin_directory", "var/plugins/"}, {"endpoint", "dns:///localhost:50051"}, {"secure", "false"}, {"grpc_server_endpoint", "dns:///localhost:52345"},
    {"grpc_server_secure", "false"}, {"udf_client_timeout", "0"}, {"prepare_analytics_benchmark_tables", "false"},
};

shown expected_defaults(bool sql_section) {
    auto r = properties(jg::configuration{});
    for (auto const& [name, v] : documented) r[name] = v;
    if (sql_section) {
        std::size_t cores = boost::thread::physical_concurrency();
        auto n = cores * 8 / 10;
        r["thread_pool_size"] = std::to_string(n < 1 ? 1 : n > 32 ? 32 : n);
    }
    return r;
}

struct written {
    std::shared_ptr<whole> cfg = std::make_shared<whole>();
    shown expect{};
    bool refused = false;
    std::size_t set = 0;
};

written gen_settings(Src& s, bool bad) {
    written w;
    bool sections[4]{};
    char const* names[] = {"sql", "session", "udf", "grpc_server"};
    for (int i = 0; i < 4; ++i) sections[i] = s.chance(85);
    auto has = [&](char const* n) {
        for (int i = 0; i < 4; ++i) {
            if (std::string{names[i]} == n) return sections[i];
        }
        return false;
    };
    for (int i = 0; i < 4; ++i) {
        if (sections[i]) w.cfg->add(names[i]);
    }
    w.expect = expected_defaults(sections[0]);
    auto density = static_cast<int>(s.pick({5, 30, 70}));
    std::vector<std::size_t> present;
    for (std::size_t i = 0; i < keys.size(); ++i) {
        auto const& k = keys[i];
        if (!has(k.section) || !s.chance(density)) continue;
        present.push_back(i);
        auto v = gen_value(s, k.k, false);
        s.note(k.section, ".", k.name, " = ", pbt::show(v.text));
        w.cfg->add(k.section).set(k.name, v.text);
        w.expect[k.prop] = *v.is;
        ++w.set;
    }
    if (bad) {
        auto i = s.idx(keys.size());
        for (std::size_t n = 0; n < keys.size(); ++n, i = (i + 1) % keys.size()) {
            auto const& k = keys[i];
            if (!has(k.section) || k.k == kind::text) continue;
            auto v = gen_value(s, k.k, true);
            s.note(k.section, ".", k.name, " = ", pbt::show(v.text), " (refused)");
            w.cfg->add(k.section).set(k.name, v.text);
            w.refused = true;
            break;
        }
    }
    // settings of others, which are none of the engine's business
    if (s.chance(30)) {
        w.cfg->add("datastore").set("thread_pool_size", "many");
        w.cfg->add("cc").set("commit_response", "whenever");
        if (has("sql")) w.cfg->add("sql").set("no_such_setting", "x");
        if (has("session")) w.cfg->add("session").set("timeout", "later");
    }
    return w;
}

void same(shown const& got, shown const& expect) {
    for (auto const& [name, v] : expect) {
        PBT_EQ(got.at(name), v, "property ", name);
    }
}

// ---------------------------------------------------------------------------------------------- the engine's life

struct log_book {
    std::vector<std::string> calls{};
    bool start_fails = false;
    bool stop_fails = false;
    std::shared_ptr<jg::configuration> given{};
    sharksfin::DatabaseHandle handle{};
    int alive = 0;
} book;

std::shared_ptr<data_relay_grpc::blob_relay::blob_relay_service> relay_now{};

class db_stub : public jg::api::database {
public:
    db_stub() { ++book.alive; }
    ~db_stub() override { --book.alive; }
    jg::status start() override {
        book.calls.emplace_back(book.start_fails ? "start!" : "start");
        return book.start_fails ? jg::status::err_unknown : jg::status::ok;
    }
    jg::status stop() override {
        book.calls.emplace_back(book.stop_fails ? "stop!" : "stop");
        return book.stop_fails ? jg::status::err_unknown : jg::status::ok;
    }
    using st = jg::status;
    using sv = std::string_view;
    st prepare(sv, jg::api::statement_handle&) override { return st::ok; }
    st prepare(sv, std::unordered_map<std::string, jg::api::field_type_kind> const&, jg::api::statement_handle&) override { return st::ok; }
    st destroy_statement(jg::api::statement_handle) override { return st::ok; }
    st resolve(jg::api::statement_handle, jg::api::maybe_shared_ptr<jg::api::parameter_set const>, std::unique_ptr<jg::api::executable_statement>&) override { return st::ok; }
    st create_executable(sv, std::unique_ptr<jg::api::executable_statement>&) override { return st::ok; }
    st explain(jg::api::executable_statement const&, std::ostream&) override { return st::ok; }
    st destroy_transaction(jg::api::transaction_handle) override { return st::ok; }
    st dump(std::ostream&, sv, std::size_t) override { return st::ok; }
    st load(std::istream&, sv, std::size_t) override { return st::ok; }
    std::shared_ptr<jg::configuration>& config() noexcept override { return book.given; }
    void print_diagnostic(std::ostream&) override {}
    std::string diagnostic_string() override { return {}; }
    st list_tables(std::vector<std::string>&) override { return st::ok; }
    st do_create_transaction(jg::api::transaction_handle&, jg::api::transaction_option const&) override { return st::ok; }
    size_t do_create_transaction_async(create_transaction_callback, jg::api::transaction_option const&) override { return 0; }
    st do_create_table(std::shared_ptr<yugawara::storage::table>, sv) override { return st::ok; }
    std::shared_ptr<yugawara::storage::table const> do_find_table(sv, sv) override { return {}; }
    st do_drop_table(sv, sv) override { return st::ok; }
    st do_create_index(std::shared_ptr<yugawara::storage::index>, sv) override { return st::ok; }
    std::shared_ptr<yugawara::storage::index const> do_find_index(sv, sv) override { return {}; }
    st do_drop_index(sv, sv) override { return st::ok; }
    st do_create_sequence(std::shared_ptr<yugawara::storage::sequence>, sv) override { return st::ok; }
    std::shared_ptr<yugawara::storage::sequence const> do_find_sequence(sv, sv) override { return {}; }
    st do_drop_sequence(sv, sv) override { return st::ok; }
};

}  // namespace

namespace jogasaki::api {
std::shared_ptr<database> create_database(std::shared_ptr<configuration> cfg, sharksfin::DatabaseHandle db) {
    book.calls.emplace_back("create");
    book.given = std::move(cfg);
    book.handle = db;
    return std::make_shared<db_stub>();
}
}  // namespace jogasaki::api

namespace jogasaki::global {
void relay_service(std::shared_ptr<data_relay_grpc::blob_relay::blob_relay_service> arg) { relay_now = std::move(arg); }
std::shared_ptr<data_relay_grpc::blob_relay::blob_relay_service> const& relay_service() { return relay_now; }
}  // namespace jogasaki::global

PBT_FACET(f_set, "every setting given reaches its property, and only its own", "at least three settings given", .quick = 30000) {
    auto w = gen_settings(s, false);
    if (w.set >= 3) s.nontrivial();
    auto c = jg::api::resource::convert_config(*w.cfg);
    PBT_CHECK(c, "valid settings were refused");
    same(properties(*c), w.expect);
    s.ops += w.expect.size();
}

PBT_FACET(f_refused, "settings with one invalid value are refused as a whole", "a value was invalid", .quick = 30000) {
    auto w = gen_settings(s, true);
    if (w.refused) s.nontrivial();
    auto c = jg::api::resource::convert_config(*w.cfg);
    if (w.refused) {
        PBT_CHECK(!c, "an invalid setting was accepted");
    } else {
        PBT_CHECK(c, "valid settings were refused");
        same(properties(*c), w.expect);
    }
    ++s.ops;
}

PBT_FACET(f_zone, "a time zone offset converts to its minutes and anything else is refused", "the offset is not zero", .quick = 20000) {
    auto v = gen_offset(s);
    s.note(pbt::show(v.text));
    std::int32_t out = 424242;
    auto ok = jg::utils::convert_offset_string(v.text, out);
    PBT_EQ(ok, v.is.has_value(), v.text);
    if (v.is) {
        PBT_EQ(std::to_string(out), *v.is, v.text);
        if (out != 0) s.nontrivial();
    }
    ++s.ops;
}

PBT_FACET(f_printed, "a configuration prints exactly what differs from the defaults", "at least three properties differ", .quick = 20000) {
    jg::configuration c{};
    auto rng = [&](std::size_t d) { return s.chance(30) ? static_cast<std::size_t>(s.draw(1'000'000'000'000ULL)) : d; };
    auto word = [&](std::string_view d) { return s.chance(30) ? "w" + s.chars("abc/.-", 8) : std::string{d}; };
    auto bit = [&](bool d) { return s.chance(30) ? !d : d; };
#define B(x) c.x(bit(c.x()))
#define N(x) c.x(rng(c.x()))
#define W(x) c.x(word(c.x()))
    B(single_thread); N(thread_pool_size); N(default_partitions); B(core_affinity); N(initial_core); B(assign_numa_nodes_uniformly);
    N(force_numa_node); B(prepare_analytics_benchmark_tables); B(stealing_enabled); W(db_location); B(activate_scheduler); B(enable_index_join);
    B(use_preferred_worker_for_current_thread); N(stealing_wait); N(task_polling_wait); N(lightweight_job_level); B(enable_hybrid_scheduler);
    B(busy_worker); N(watcher_interval); N(worker_try_count); N(worker_suspend_timeout); B(profile_commits); B(skip_smv_check);
    B(return_os_pages); B(omit_task_when_idle); B(trace_external_log); B(plan_recording); B(try_insert_on_upserting_secondary);
    B(support_boolean); B(support_smallint); B(scan_concurrent_operation_as_not_found); B(point_read_concurrent_operation_as_not_found);
    B(normalize_float); B(log_msg_user_data); B(lowercase_regular_identifiers); N(scan_block_size); N(scan_yield_interval);
    N(thousandths_ratio_check_local_first); B(direct_commit_callback); N(scan_default_parallel); B(inplace_teardown); B(inplace_dag_schedule);
    B(enable_join_scan); B(mock_datastore); B(enable_blob_cast); N(max_result_set_writers); B(enable_session_store); B(enable_storage_key);
    B(enable_maintenance_thread); N(maintenance_interval_ms); W(plugin_directory); W(endpoint); B(secure); B(enable_disjunction_range_hinting);
    B(enable_truncate); W(grpc_server_endpoint); B(grpc_server_secure); B(udf_pass_mock_tag); N(apply_max_polls); N(udf_client_timeout);
#undef B
#undef N
#undef W
    if (s.chance(30)) c.default_commit_response(static_cast<jg::commit_response_kind>(s.range(-1, 3)));
    if (s.chance(30)) c.key_distribution(static_cast<jg::key_distribution_kind>(s.range(-1, 2)));
    if (s.chance(30)) c.zone_offset(static_cast<std::int32_t>(s.range(-1000, 1000)));
    auto all = properties(c);
    auto def = properties(jg::configuration{});
    shown differ;
    for (auto const& [name, v] : all) {
        if (v != def.at(name)) differ[name] = v;
    }
    if (differ.size() >= 3) s.nontrivial();
    std::ostringstream o;
    o << c;
    shown got;
    std::istringstream in{o.str()};
    for (std::string t; in >> t;) {
        auto at = t.find(':');
        PBT_CHECK(at != std::string::npos, "unreadable part ", t);
        PBT_CHECK(got.emplace(t.substr(0, at), t.substr(at + 1)).second, "printed twice: ", t);
    }
    for (auto const& [name, v] : differ) {
        PBT_CHECK(got.count(name) == 1, "missing in the output: ", name);
        PBT_EQ(got.at(name), v, name);
    }
    PBT_EQ(got.size(), differ.size(), "the output has parts nobody set: ", o.str());
    s.ops += differ.size() + 1;
}

PBT_FACET(f_life, "the engine is started and stopped once each, and only where the server's mode runs it", "the engine was started and something failed or was repeated", .quick = 20000) {
    auto fresh = std::shared_ptr<data_relay_grpc::blob_relay::blob_relay_service>{};
    book = {};
    relay_now = {};
    auto w = gen_settings(s, s.chance(15));
    fw::environment env{};
    env.configuration(w.cfg);
    auto mode = s.chance(60) ? fw::boot_mode::database_server : s.pick({fw::boot_mode::maintenance_server, fw::boot_mode::maintenance_standalone, fw::boot_mode::quiescent_server});
    env.mode(mode);
    bool active = mode == fw::boot_mode::database_server;
    bool has_kvs = s.chance(90);
    auto handle = reinterpret_cast<sharksfin::DatabaseHandle>(static_cast<std::uintptr_t>(0x1000 + 16 * s.range(0, 9)));
    if (has_kvs) env.resource_repository().add(std::make_shared<fw::transactional_kvs_resource>(handle));
    auto enabled = [&](char const* section) {
        if (s.chance(30)) return false;
        bool v = s.chance(70);
        w.cfg->add(section).set("enabled", v ? "true" : "false");
        return v;
    };
    bool relay = enabled("grpc_server");
    if (!enabled("blob_relay")) relay = false;
    bool adapter = s.chance(85);
    bool has_relay = s.chance(85);
    auto storage = std::make_shared<int>();
    if (has_relay) fresh = std::shared_ptr<data_relay_grpc::blob_relay::blob_relay_service>(storage, reinterpret_cast<data_relay_grpc::blob_relay::blob_relay_service*>(storage.get()));
    if (adapter) env.resource_repository().add(std::make_shared<tateyama::grpc::blob_relay::service_adapter>(fresh));
    bool created = false;
    bool running = false;
    bool eventful = false;
    std::vector<std::string> expect;
    {
        auto b = std::make_unique<jg::api::resource::bridge>();
        PBT_CHECK(!b->database());
        PBT_EQ(b->label(), "sql_resource");
        PBT_EQ(b->id(), fw::resource_id_sql);
        auto set = b->setup(env);
        PBT_EQ(set, !active || !w.refused, "setup");
        auto rounds = set ? s.range(0, 3) : 0;
        for (auto i = 0; i < rounds; ++i) {
            if (i > 0) eventful = true;
            if (!running && s.chance(90)) {
                book.start_fails = s.chance(20);
                auto ok = b->start(env);
                s.note("start: ", ok);
                if (!active) {
                    PBT_CHECK(ok);
                    PBT_CHECK(!b->database());
                } else {
                    bool borrowed = !relay || (adapter && has_relay);
                    bool want = borrowed && (created || has_kvs) && !book.start_fails;
                    PBT_EQ(ok, want, "start");
                    if (borrowed) PBT_CHECK((relay_now != nullptr) == relay && (!relay || relay_now == fresh), "the relay service in use");
                    if (borrowed && (created || has_kvs)) {
                        if (!created) {
                            expect.emplace_back("create");
                            created = true;
                            PBT_CHECK(book.given, "no configuration");
                            same(properties(*book.given), w.expect);
                            PBT_EQ(book.handle, handle);
                        }
                        expect.emplace_back(book.start_fails ? "start!" : "start");
                        running = !book.start_fails;
                        if (book.start_fails) eventful = true;
                    }
                    PBT_EQ(b->database() != nullptr, created);
                }
                PBT_EQ(book.calls, expect);
            }
            if (s.chance(80)) {
                book.stop_fails = s.chance(20);
                PBT_CHECK(b->shutdown(env));
                PBT_CHECK(!relay_now, "the relay service outlived the engine");
                s.note("shutdown");
                if (running) {
                    expect.emplace_back(book.stop_fails ? "stop!" : "stop");
                    running = book.stop_fails;
                    if (book.stop_fails) eventful = true;
                }
                PBT_EQ(book.calls, expect);
            }
        }
        book.stop_fails = false;
    }
    if (running) expect.emplace_back("stop");
    PBT_EQ(book.calls, expect);
    PBT_EQ(book.alive, 0, "the database outlived its owner");
    if (created && eventful) s.nontrivial();
    s.ops += expect.size() + 1;
}

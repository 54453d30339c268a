S = "src/jogasaki/"
U = S + "utils/"
HEAD = """#include <cstdio>
#include <cstdlib>
#define CHECK(x) do { if (!(x)) { std::printf("failed: %s\\n", #x); std::exit(1); } } while (0)
"""
SEEDS = []
CONFIG = """
#include <atomic>
#include <functional>
#include <iostream>
#include <memory>
#include <optional>
#include <string>
#include <thread>
#include <vector>
#include <jogasaki/configuration.h>
#include <jogasaki/executor/global.h>
namespace jogasaki::global { takatori::util::maybe_shared_ptr<configuration> const& config_pool(takatori::util::maybe_shared_ptr<configuration> arg) {
 static takatori::util::maybe_shared_ptr<configuration> c = std::make_shared<configuration>(); if (arg) c = std::move(arg); return c; } }
"""


def seed(id, prop, edits, demo, src="", libs="-lglog", needs="", breaks="", **kw):
    SEEDS.append(dict(id=id, property=prop, edits=edits, demo=HEAD + demo, src=src, libs=libs, needs=needs, breaks=breaks, **kw))


seed("p01-surrogate-end", "P01", [(U + "sanitize_utf8.cpp", "code_point <= 0xDFFFU", "code_point < 0xDFFFU")], r"""
#include <jogasaki/utils/sanitize_utf8.h>
int main() { CHECK(jogasaki::utils::sanitize_utf8("a\xed\xbf\xbf") == "a\\x{ed}\\x{bf}\\x{bf}"); CHECK(jogasaki::utils::sanitize_utf8("\xed\xa0\x80") == "\\x{ed}\\x{a0}\\x{80}"); }
""", src=U + "sanitize_utf8.cpp", needs="the last surrogate code point U+DFFF encoded in three bytes", breaks="ill-formed bytes are passed through as text")

seed("p02-assign-shrink", "P02", [(S + "data/aligned_buffer.cpp", "    resize_internal(other.size_, false);\n    std::memcpy(data_.get(), other.data_.get(), other.size_);",
     "    if (other.size_ > size_) {\n        resize_internal(other.size_, false);\n    }\n    std::memcpy(data_.get(), other.data_.get(), other.size_);")], r"""
#include <string>
#include <jogasaki/data/aligned_buffer.h>
using jogasaki::data::aligned_buffer;
int main() { aligned_buffer a{std::string_view{"0123456789"}}, b{std::string_view{"abc"}}, c{std::string_view{"0123456789abcdef"}};
 aligned_buffer x{std::string_view{"zz"}}; x.assign(c); CHECK(std::string(static_cast<std::string_view>(x)) == "0123456789abcdef");
 a.assign(b); CHECK(a.size() == 3); CHECK(static_cast<std::string_view>(a) == "abc"); }
""", src=S + "data/aligned_buffer.cpp", libs="-lglog", needs="assigning a shorter value over a longer one", breaks="the buffer keeps the old size and stale trailing bytes")

seed("p02-signed-order", "P02", [(S + "accessor/text.cpp", "    return sv_a.compare(sv_b);", "    auto n = sv_a.size() < sv_b.size() ? sv_a.size() : sv_b.size();\n    for (std::size_t i = 0; i < n; ++i) {\n        if (sv_a[i] != sv_b[i]) {\n            return sv_a[i] < sv_b[i] ? -1 : 1;\n        }\n    }\n    return sv_a.size() == sv_b.size() ? 0 : (sv_a.size() < sv_b.size() ? -1 : 1);")], r"""
#include <string>
#include <jogasaki/accessor/text.h>
using jogasaki::accessor::text;
int main() { text a{"abc\x7f"}, b{"abc\xc3\xa9"}, c{"abcdefghijklmnopqrstuvwxyz"}, d{"abcdefghijklmnopqrstuvwxy\xe3"};
 CHECK(a < b); CHECK(b > a); CHECK(c < d); CHECK(!(d <= c)); CHECK(compare(a, a) == 0); }
""", src=S + "accessor/text.cpp", libs="-lglog -lboost_container", needs="a byte above 0x7f at the first difference", breaks="character values sort by signed bytes")

seed("p03-eos-one", "P03", [(S + "udf/generic_record_impl.cpp", "        std::lock_guard lk(mutex_);\n        eos_ = true;\n    }\n    cv_.notify_all();", "        std::lock_guard lk(mutex_);\n        eos_ = true;\n    }\n    cv_.notify_one();")], r"""
#include <atomic>
#include <chrono>
#include <thread>
#include <jogasaki/udf/generic_record_impl.h>
using namespace plugin::udf;
int main() {
 for (int r = 0; r < 5; ++r) {
  auto* st = new generic_record_stream_impl; std::atomic<int> done{0};
  for (int i = 0; i < 3; ++i) std::thread([&, st] { generic_record_impl rec; st->next(rec, std::nullopt); ++done; }).detach();
  std::this_thread::sleep_for(std::chrono::milliseconds(100));
  st->end_of_stream();
  for (int i = 0; i < 100 && done < 3; ++i) std::this_thread::sleep_for(std::chrono::milliseconds(20));
  if (done != 3) { std::printf("a consumer is still blocked after the end of stream\n"); std::_Exit(1); }
 }
 std::_Exit(0); }
""", src=S + "udf/generic_record_impl.cpp " + S + "udf/error_info.cpp", libs="-lglog -lgrpc++ -lgrpc -lgpr", needs="two or more consumers blocked without a timeout when the stream ends", breaks="a consumer stays blocked forever")

seed("p03-moved-from", "P03", [(S + "udf/generic_record_impl.cpp", "        std::scoped_lock lk(mutex_, other.mutex_);\n        queue_ = std::move(other.queue_);\n        closed_ = other.closed_;\n        eos_ = other.eos_;\n        other.closed_ = true;\n        other.eos_ = true;",
     "        std::scoped_lock lk(mutex_, other.mutex_);\n        queue_ = std::move(other.queue_);\n        closed_ = other.closed_;\n        eos_ = other.closed_;\n        other.closed_ = true;\n        other.eos_ = true;")], r"""
#include <chrono>
#include <jogasaki/udf/generic_record_impl.h>
using namespace plugin::udf;
int main() { generic_record_stream_impl a, b; generic_record_impl rec;
 auto r = std::make_unique<generic_record_impl>(); r->add_int4(1); a.push(std::move(r)); a.end_of_stream();
 b = std::move(a);
 CHECK(b.try_next(rec) == generic_record_stream::status_type::ok);
 CHECK(b.try_next(rec) == generic_record_stream::status_type::end_of_stream);
 CHECK(b.next(rec, std::chrono::milliseconds(50)) == generic_record_stream::status_type::end_of_stream); }
""", src=S + "udf/generic_record_impl.cpp " + S + "udf/error_info.cpp", libs="-lglog -lgrpc++ -lgrpc -lgpr", needs="a stream that has ended but is not closed is move-assigned with records queued, then drained", breaks="the end is never reported to the consumer")

seed("p04-interleaved", "P04", [(S + "udf/descriptor_impl.cpp", "    std::unordered_map<column_descriptor::oneof_index_type, bool> processed;\n", "    std::optional<column_descriptor::oneof_index_type> processed{};\n"),
     (S + "udf/descriptor_impl.cpp", "            if (processed[idx]) continue;\n            processed[idx] = true;\n", "            if (processed == idx) continue;\n            processed = idx;\n")], r"""
#include <memory>
#include <jogasaki/udf/descriptor_impl.h>
using namespace plugin::udf;
int main() {
 std::vector<std::unique_ptr<column_descriptor_impl>> o; std::vector<column_descriptor*> v;
 auto add = [&](const char* n, std::optional<std::size_t> g) { o.push_back(std::make_unique<column_descriptor_impl>(o.size(), n, static_cast<type_kind>(1), nullptr, g, std::nullopt, false)); v.push_back(o.back().get()); };
 add("a", 0); add("b", 0); add("c", std::nullopt); add("d", 1); add("e", 1);
 record_descriptor_impl r{"r", v}; CHECK(r.argument_patterns().size() == 4);
 std::swap(v[1], v[3]);  // alternatives of the two groups interleaved
 record_descriptor_impl q{"q", v}; CHECK(q.argument_patterns().size() == 4);
 for (auto& p : q.argument_patterns()) CHECK(p.size() == 3); }
""", src=S + "udf/descriptor_impl.cpp", needs="members of two alternative groups interleaved in column order", breaks="argument patterns list a group twice")

seed("p04-nested-names", "P04", [(S + "udf/descriptor/descriptor_analyzer.cpp", "        nested_parent_name.reserve(parent_name.size() + message.name().size() + 1);\n        nested_parent_name = parent_name;\n        nested_parent_name += \".\";\n        nested_parent_name += message.name();",
     "        auto last = parent_name.rfind('.');\n        nested_parent_name = last == std::string::npos ? parent_name : parent_name.substr(last + 1);\n        nested_parent_name += \".\";\n        nested_parent_name += message.name();")], r"""
#include <filesystem>
#include <fstream>
#include <unistd.h>
#include <vector>
#include <google/protobuf/descriptor.pb.h>
#include <jogasaki/udf/descriptor/descriptor_analyzer.h>
int main() { google::protobuf::FileDescriptorSet set; auto* f = set.add_file(); f->set_name("x.proto"); f->set_package("p");
 auto* m = f->add_message_type(); m->set_name("A"); for (auto n : {"B", "C", "D"}) { m = m->add_nested_type(); m->set_name(n); }
 auto dir = std::filesystem::temp_directory_path() / ("udfdemo" + std::to_string(::getpid())); std::filesystem::create_directory(dir); auto p = dir / "x.desc.pb";
 { std::ofstream o(p, std::ios::binary); set.SerializeToOstream(&o); }
 auto r = jogasaki::udf::descriptor::analyze_descriptors(std::vector<std::filesystem::path>{p}); std::filesystem::remove(p); std::filesystem::remove(dir);
 CHECK(!r.has_error()); CHECK(r.message_info().count(".p.A.B.C") == 1); CHECK(r.message_info().count(".p.A.B.C.D") == 1); }
""", src=S + "udf/descriptor/descriptor_analyzer.cpp " + S + "udf/descriptor/descriptor_reader.cpp " + S + "udf/plugin_api.cpp " + S + "udf/udf_config.cpp", libs="-lglog -lgrpc++ -lgrpc -lgpr -lprotobuf", needs="messages nested four levels deep", breaks="deeply nested messages are listed under a wrong name")

seed("p05-padding", "P05", [(U + "base64_utils.cpp", "            if (i < sv.size() - 2) return false;\n            if (i == sv.size() - 2 && sv.back() != '=') return false;", "            if (i < sv.size() - 2) return false;")], r"""
#include <jogasaki/utils/base64_utils.h>
int main() { using namespace jogasaki::utils; CHECK(is_base64("YWI=")); CHECK(is_base64("YQ==")); CHECK(!is_base64("Y===")); CHECK(!is_base64("YW=I")); }
""", src=U + "base64_utils.cpp", needs="padding followed by one more digit at the end of the text", breaks="malformed base64 is accepted")

seed("p06-zero-scale", "P06", [(S + "executor/dto/common_column_utils.cpp", "	if (has_scale(src)) {\n", "	if (has_scale(src) && src.scale() != 0) {\n")], r"""
#include <jogasaki/executor/dto/common_column_utils.h>
using namespace jogasaki::executor::dto;
int main() { common_column c{}; c.name_ = "C0"; c.atom_type_ = common_column::atom_type::decimal; c.precision_ = 10U; c.scale_ = 2U;
 CHECK(from_proto(to_proto(c)).scale_ == c.scale_); c.scale_ = 0U; CHECK(from_proto(to_proto(c)).scale_ == c.scale_); }
""", src=S + "executor/dto/common_column_utils.cpp", protos="src/jogasaki/proto/sql/common.proto src/jogasaki/proto/sql/response.proto src/jogasaki/proto/sql/error.proto src/jogasaki/proto/metadata/storage.proto src/jogasaki/proto/metadata/common.proto", needs="a decimal column whose scale is given and is 0", breaks="the scale is lost on the wire")

seed("p07-code", "P07", [(S + "api/impl/map_error_code.h", "case sql::error::OCC_WRITE_EXCEPTION: return jogasaki::error_code::occ_write_exception;", "case sql::error::OCC_WRITE_EXCEPTION: return jogasaki::error_code::occ_exception;")], r"""
#include <jogasaki/proto/sql/error.pb.h>
#include <jogasaki/api/impl/map_error_code.h>
using jogasaki::api::impl::map_error; using jogasaki::error_code;
int main() { for (auto e : {error_code::occ_exception, error_code::occ_read_exception, error_code::occ_write_exception, error_code::conflict_on_write_preserve_exception}) CHECK(map_error(map_error(e)) == e); }
""", protos="src/jogasaki/proto/sql/error.proto", needs="an optimistic write conflict reported by its code and mapped back", breaks="the code read back is a more general one")

seed("p08-early-wakeup", "P08", [(U + "waitable_atomic.h", "        return cv_.wait_for(lk, dur, [this, &old](){\n            return origin_.load() != old;\n        });", "        if (origin_.load() == old) {\n            cv_.wait_for(lk, dur);\n        }\n        return origin_.load() != old;")], r"""
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <mutex>
#include <thread>
#include <jogasaki/utils/waitable_atomic.h>
int main() { jogasaki::utils::waitable_atomic<int> a{0}; std::atomic<int> r{-1};
 std::thread t([&] { r = a.wait_for(std::chrono::seconds(20), 0) ? 1 : 0; });
 for (int i = 0; i < 20; ++i) { std::this_thread::sleep_for(std::chrono::milliseconds(10)); a.notify_all(); }
 std::this_thread::sleep_for(std::chrono::milliseconds(50)); a = 1; a.notify_all(); t.join(); CHECK(r == 1); }
""", needs="a notification while the value has not changed", breaks="the waiter gives up long before its time")

seed("p08-latch-all", "P08", [(U + "latch.cpp", "    cv_.notify_all();", "    cv_.notify_one();")], r"""
#include <atomic>
#include <chrono>
#include <thread>
#include <jogasaki/utils/latch.h>
int main() { auto* l = new jogasaki::utils::latch; std::atomic<int> done{0};
 for (int i = 0; i < 3; ++i) std::thread([&] { l->wait(); ++done; }).detach();
 std::this_thread::sleep_for(std::chrono::milliseconds(200)); l->release();
 for (int i = 0; i < 100 && done < 3; ++i) std::this_thread::sleep_for(std::chrono::milliseconds(20));
 if (done != 3) { std::printf("only %d of 3 waiters released\n", done.load()); std::_Exit(1); } std::_Exit(0); }
""", src=U + "latch.cpp", needs="more than one thread waiting on the same latch", breaks="only one waiter is released")

seed("p09-racy-total", "P09", [(S + "executor/io/record_channel_stats.h", "        total_record_count_.fetch_add(arg);", "        total_record_count(total_record_count() + arg);")], r"""
#include <thread>
#include <vector>
#include <atomic>
#include <cstddef>
#include <jogasaki/executor/io/record_channel_stats.h>
int main() { jogasaki::executor::io::record_channel_stats st; std::vector<std::thread> ts;
 for (int i = 0; i < 4; ++i) ts.emplace_back([&] { for (int k = 0; k < 500000; ++k) st.add_total_record(1); });
 for (auto& t : ts) t.join(); CHECK(st.total_record_count() == 2000000); }
""", needs="two writers adding at the same time", breaks="records are missing from the total")

seed("p10-sign", "P10", [(U + "surrogate_id_utils.cpp", "static_cast<unsigned char>(bytes[i])", "bytes[i]")], r"""
#include <stdexcept>
#include <jogasaki/utils/surrogate_id_utils.h>
int main() { using namespace jogasaki::utils; for (std::uint64_t v : {0ULL, 1ULL, 0x7fULL, 0x1234567ULL, 0x1280ULL, 0xff00ULL}) CHECK(from_big_endian(to_big_endian(v)) == v); }
""", src=U + "surrogate_id_utils.cpp " + U + "fail.cpp", inc={"takatori/util/exception.h": "@shim/takatori/util/exception.h", "takatori/util/stacktrace.h": "@shim/takatori/util/stacktrace.h",
   "takatori/util/string_builder.h": "@shim/takatori/util/string_builder.h", "takatori/util/fail.h": "@shim/takatori/util/fail.h", "takatori/util/assertion.h": "@shim/takatori/util/assertion.h"},
   needs="an identifier with a byte of 0x80 or more", breaks="identifiers change when read back from bytes")

seed("p11-provider", "P11", [("include/jogasaki/lob/lob_reference.h", "        return a.id_ == b.id_ && a.provider_ == b.provider_;", "        return a.id_ == b.id_;")], r"""
#include <jogasaki/lob/blob_reference.h>
using namespace jogasaki::lob;
int main() { blob_reference a{5, lob_data_provider::datastore}, b{5, lob_data_provider::datastore}, c{5, lob_data_provider::relay_service_session}, d{6, lob_data_provider::datastore};
 CHECK(a == b); CHECK(a != d); CHECK(a != c); }
""", needs="two references with the same id from different providers", breaks="different objects compare equal")

seed("p02-concat", "P02", [(S + "accessor/text.cpp", "    std::memcpy(p+sv1.size(), sv2.data(), sv2.size()); //NOLINT", "    std::strncpy(p+sv1.size(), sv2.data(), sv2.size()); //NOLINT")], r"""
#include <string>
#include <jogasaki/memory/monotonic_paged_memory_resource.h>
#include <jogasaki/accessor/text.h>
using jogasaki::accessor::text;
struct res : jogasaki::memory::paged_memory_resource {
 void* do_allocate(std::size_t n, std::size_t) override { return std::malloc(n); }
 void do_deallocate(void* p, std::size_t, std::size_t) override { std::free(p); }
 bool do_is_equal(boost::container::pmr::memory_resource const& o) const noexcept override { return this == &o; }
 std::size_t do_page_remaining(std::size_t) const noexcept override { return 1 << 20; }
 void end_current_page() override {}
};
int main() { res r; std::string a(20, 'a'), b("b\0cdefghijklmnopqrstuvw", 23);
 text t{&r, text{a.data(), a.size()}, text{b.data(), b.size()}}; CHECK(static_cast<std::string>(t) == a + b); }
""", src=S + "accessor/text.cpp", libs="-lglog -lboost_container", inc={"takatori/util/maybe_shared_ptr.h": "@shim/takatori/util/maybe_shared_ptr.h", "takatori/util/exception.h": "@shim/takatori/util/exception.h", "takatori/util/stacktrace.h": "@shim/takatori/util/stacktrace.h"},
  needs="concatenating two long values where the second contains a NUL byte", breaks="the bytes after the NUL are lost")

seed("p12-empty-checkpoint", "P12", [(S + "memory/lifo_paged_memory_resource.cpp", "            page.upper_bound_offset(point.offset_);\n", "            if (point.offset_ != 0) {\n                page.upper_bound_offset(point.offset_);\n            }\n")], CONFIG + r"""
#include <jogasaki/memory/lifo_paged_memory_resource.h>
#include <jogasaki/memory/page_pool.h>
using namespace jogasaki::memory;
int main() { page_pool pool; lifo_paged_memory_resource r{&pool};
 auto e = r.get_checkpoint(); auto* p = r.allocate(100, 8);
 auto c = r.get_checkpoint(); r.allocate(300, 8); r.deallocate_after(c); CHECK(r.count_pages() == 1); CHECK(r.allocate(8, 8) == static_cast<char*>(p) + 104);
 r.deallocate_after(e); CHECK(r.count_pages() == 0); }
""", src=S + "memory/lifo_paged_memory_resource.cpp " + S + "memory/page_pool.cpp " + S + "memory/details/page_allocation_info.cpp", libs="-lglog -lnuma -ltbb -lboost_container", auto=True,
  needs="going back to a checkpoint that was taken before the first allocation", breaks="the memory allocated since stays in use")

seed("p13-carry", "P13", [(S + "serializer/value_output.cpp", "        if (c_lo == 0) {\n            c_hi += 1; // carry up\n        }\n", "")], r"""
#include <jogasaki/serializer/value_output.h>
#include <jogasaki/serializer/value_input.h>
using namespace jogasaki::serializer; using takatori::decimal::triple;
static bool rt(triple v) { char buf[64]{}; takatori::util::buffer_view b{buf, sizeof(buf)}; auto it = b.begin(); if (! write_decimal(v, it, b.end())) return false;
 takatori::util::const_buffer_view c{buf, static_cast<std::size_t>(it - b.begin())}; auto r = c.cbegin(); auto w = read_decimal(r, c.cend()); return w == v && r == c.cend(); }
int main() { CHECK(rt(triple{1, 1, 0, 0})); CHECK(rt(triple{-1, 1, 5, -3})); CHECK(rt(triple{-1, 0, 7, 2})); CHECK(rt(triple{-1, 1, 0, 0})); CHECK(rt(triple{-1, 0x1234, 0, -10})); }
""", src=" ".join(S + "serializer/" + x + ".cpp" for x in ("base128v", "value_input", "value_input_exception", "value_output")), auto=True,
  needs="a negative number of more than 64 bits whose lower word is zero", breaks="a different number is read back")

seed("p14-length-order", "P14", [(S + "kvs/writable_stream.h", "details::key_encode<details::binary_encoding_prefix_type_bits>(len, odr)", "details::key_encode<details::binary_encoding_prefix_type_bits>(len, order::ascending)"),
  (S + "kvs/readable_stream.h", "read<details::binary_encoding_prefix_type>(odr, false)", "read<details::binary_encoding_prefix_type>(order::ascending, false)")], CONFIG + r"""
#include <string>
#include <jogasaki/kvs/writable_stream.h>
#include <jogasaki/kvs/readable_stream.h>
using namespace jogasaki; using accessor::binary;
static std::string key(std::string_view v, kvs::order o) { std::string buf(64, 0); kvs::writable_stream w{buf}; meta::octet_field_option opt{true, 20};
 if (w.write(binary{v.data(), v.size()}, o, opt) != status::ok) std::exit(3); return buf.substr(0, w.size()); }
int main() { CHECK(key("a", kvs::order::ascending) < key("b", kvs::order::ascending)); CHECK(key("a", kvs::order::ascending) < key("aa", kvs::order::ascending));
 CHECK(key("a", kvs::order::descending) > key("b", kvs::order::descending)); CHECK(key("a", kvs::order::descending) > key("aa", kvs::order::descending)); }
""", src=" ".join(S + x + ".cpp" for x in ("kvs/writable_stream", "kvs/readable_stream", "accessor/text", "meta/octet_field_option", "meta/character_field_option", "meta/decimal_field_option", "utils/coder", "utils/decimal", "utils/fail", "executor/expr/details/decimal_context", "data/any", "data/aligned_buffer", "kvs/coder", "meta/record_meta", "meta/impl/record_layout_creator", "meta/time_of_day_field_option", "meta/time_point_field_option", "accessor/record_ref", "accessor/const_record_ref")),
  libs="-lglog -lboost_container -ldl", auto=True, needs="octet strings of different lengths in a descending key", breaks="descending keys are not in descending order, although every key reads back unchanged")

seed("p15-null-first", "P15", [(S + "accessor/record_copier.cpp", "if(src.is_null(nullity_offset)) continue;", "if(src.is_null(nullity_offset)) break;")], CONFIG + r"""
#include <string>
#include <jogasaki/accessor/record_copier.h>
#include <jogasaki/accessor/record_ref.h>
#include <jogasaki/accessor/text.h>
#include <jogasaki/memory/monotonic_paged_memory_resource.h>
#include <jogasaki/memory/page_pool.h>
#include <jogasaki/meta/character_field_option.h>
#include <jogasaki/meta/record_meta.h>
using namespace jogasaki;
int main() { using meta::field_type; using meta::field_enum_tag; using K = meta::field_type_kind;
 auto ch = [] { return field_type{std::make_shared<meta::character_field_option>()}; };
 auto m = std::make_shared<meta::record_meta>(std::vector<field_type>{ch(), ch()}, boost::dynamic_bitset<std::uint64_t>(2, 3));
 memory::page_pool pool; memory::monotonic_paged_memory_resource keep{&pool};
 for (int null0 = 0; null0 < 2; ++null0) {
  std::string a(40, 'a'), b(40, 'b'); alignas(16) unsigned char s[256]{}, d[256]{};
  accessor::record_ref src{s, m->record_size()}, dst{d, m->record_size()};
  src.set_null(m->nullity_offset(0), null0 == 1); src.set_null(m->nullity_offset(1), false);
  src.set_value(m->value_offset(0), accessor::text{a.data(), a.size()}); src.set_value(m->value_offset(1), accessor::text{b.data(), b.size()});
  accessor::record_copier{m, &keep}(dst, src);
  b.assign(40, 'x');
  CHECK(static_cast<std::string>(dst.get_value<accessor::text>(m->value_offset(1))) == std::string(40, 'b'));
 } }
""", src=" ".join(S + x + ".cpp" for x in ("accessor/record_copier", "accessor/record_ref", "accessor/const_record_ref", "accessor/text", "meta/record_meta", "meta/impl/record_layout_creator", "meta/character_field_option", "meta/decimal_field_option", "meta/octet_field_option", "meta/time_of_day_field_option", "meta/time_point_field_option",
  "memory/monotonic_paged_memory_resource", "memory/page_pool", "memory/details/page_allocation_info", "utils/fail")), libs="-lglog -lnuma -ltbb -lboost_container -ldl", auto=True,
  needs="a NULL field before a long string", breaks="the copy still refers to the memory of the original row")

seed("p17-null-order", "P17", [(S + "executor/comparator.h", "return negate_if(a_null ? -1 : 1, field_index);", "return a_null ? -1 : 1;")], r"""
#include <jogasaki/accessor/record_ref.h>
#include <jogasaki/executor/compare_info.h>
#include <jogasaki/executor/comparator.h>
#include <jogasaki/meta/record_meta.h>
using namespace jogasaki;
int main() { using meta::field_type; using meta::field_enum_tag; using K = meta::field_type_kind;
 meta::record_meta m{std::vector<field_type>{field_type{field_enum_tag<K::int4>}}, boost::dynamic_bitset<std::uint64_t>(1, 1)};
 for (auto o : {executor::ordering::ascending, executor::ordering::descending}) {
  executor::compare_info i{m, std::vector<executor::ordering>{o}}; executor::comparator c{i};
  alignas(8) unsigned char x[64]{}, y[64]{}; accessor::record_ref a{x, m.record_size()}, b{y, m.record_size()};
  a.set_null(m.nullity_offset(0), true); b.set_null(m.nullity_offset(0), false); b.set_value<std::int32_t>(m.value_offset(0), 1);
  int sign = o == executor::ordering::ascending ? 1 : -1;
  CHECK(c(a, b) * sign < 0); CHECK(c(b, a) * sign > 0); CHECK(c(a, a) == 0); } }
""", src=" ".join(S + x + ".cpp" for x in ("executor/compare_info", "accessor/record_ref", "accessor/const_record_ref", "accessor/text", "meta/record_meta", "meta/impl/record_layout_creator", "meta/character_field_option", "meta/decimal_field_option", "meta/octet_field_option", "meta/time_of_day_field_option", "meta/time_point_field_option", "utils/fail")),
  libs="-lglog -lboost_container -ldl", auto=True, needs="a NULL in a column sorted in descending order", breaks="NULLs come first in both directions")

seed("p33-negative-offset", "P33", [(U + "convert_offset_string.cpp", "(v.plus ? 1 : -1) * (static_cast<std::int32_t>(v.hour) * 60 + static_cast<std::int32_t>(v.minute))", "(v.plus ? 1 : -1) * static_cast<std::int32_t>(v.hour) * 60 + static_cast<std::int32_t>(v.minute)")], r"""
#include <jogasaki/utils/convert_offset_string.h>
static int off(std::string_view s) { std::int32_t r = 12345; if (! jogasaki::utils::convert_offset_string(s, r)) return 99999; return r; }
int main() { CHECK(off("") == 0); CHECK(off("+09:00") == 540); CHECK(off("-08:00") == -480); CHECK(off("+05:30") == 330); CHECK(off("-09:30") == -570); CHECK(off("-00:30") == -30); }
""", src=U + "convert_offset_string.cpp", auto=True, needs="a time zone west of Greenwich that is not at a full hour", breaks="the offset is wrong by up to two hours")

// P31: dump and load of files. The files are kept in memory by stand-ins of the Parquet and Arrow classes (no library
// here): a dump must put every row of its query into exactly one of the files it lists, a load must put every record of
// its files into the table once, and a failure of either must be reported and leave nothing half done.
#include "service.inc"
#include <filesystem>
#include <fstream>
#include <jogasaki/executor/file/arrow_writer.h>
#include <jogasaki/executor/file/parquet_reader.h>
#include <jogasaki/executor/file/parquet_writer.h>
#include <jogasaki/scheduler/conditional_task.h>
#include <jogasaki/scheduler/flat_task.h>
#include <jogasaki/scheduler/task_scheduler.h>
#include <tateyama/task_scheduler/context.h>
#include <unistd.h>

namespace files {
using Rows = std::vector<std::vector<V>>;
struct File {
    std::vector<std::string> names;
    std::vector<Ty> types;
    std::vector<Rows> groups;
};
struct Out {
    std::string path;
    bool arrow = false, closed = false, over = false;
    std::size_t batch = 0;
    bool fixed_char = false;
    i64 bytes = 0;
    jogasaki::executor::file::time_unit_kind unit{};
    std::vector<std::string> names;
    std::vector<K> kinds;
    Rows rows;
};
struct State {
    std::map<std::string, File> in;
    std::list<Out> out;
    std::size_t readers = 0, writers = 0, misuse = 0;
    int fail_open = -1, fail_write = -1, fail_close = -1;  // countdowns
    bool hit = false;
    std::function<void()> at{};  // another thread may go on here
};
State& st() { static State s; return s; }
bool down(int& c) {
    if (c < 0 || c-- > 0) return false;
    st().hit = true;
    return true;
}
}  // namespace files

namespace jogasaki::executor::file {
class parquet_reader::impl {
public:
    files::File f;
    std::string path;
    reader_option opt{};
    bool mapped = false, open = true;
    std::vector<std::size_t> cols{};
    std::size_t group = 0, pos = 0;
    std::unique_ptr<char[]> rec{};
    std::list<std::string> text{};
    maybe_shared_ptr<meta::external_record_meta> m{};
    ~impl() { --files::st().readers; }
};
parquet_reader::parquet_reader() : impl_(std::make_unique<impl>()) { ++files::st().readers; }
parquet_reader::~parquet_reader() noexcept = default;
bool parquet_reader::next(accessor::record_ref& ref) {
    auto& i = *impl_;
    if (!i.open || !i.mapped) { ++files::st().misuse; return false; }
    if (files::st().at) files::st().at();
    if (i.pos == i.f.groups[i.group].size()) return false;
    auto sz = i.opt.meta_->record_size();
    if (sz != 0) std::memset(i.rec.get(), 0x5a, sz);
    i.text.clear();
    ref = {i.rec.get(), sz};
    auto& row = i.f.groups[i.group][i.pos++];
    for (std::size_t c = 0; c < i.cols.size(); ++c) {
        if (i.cols[c] == npos) continue;
        auto& v = row[i.cols[c]];
        ref.set_null(i.opt.meta_->nullity_offset(c), v.null);
        if (v.null) continue;
        V x = v;
        x.k = i.opt.meta_->at(c).kind();
        if (x.k == K::character || x.k == K::octet) {
            auto& s = i.text.emplace_back(x.s);
            if (x.k == K::character) ref.set_value(i.opt.meta_->value_offset(c), accessor::text{s.data(), s.size()});
            else ref.set_value(i.opt.meta_->value_offset(c), accessor::binary{s.data(), s.size()});
        } else put(ref, i.opt.meta_->value_offset(c), x, nullptr);
    }
    return true;
}
bool parquet_reader::close() { impl_->open = false; return true; }
std::string parquet_reader::path() const noexcept { return impl_->path; }
std::size_t parquet_reader::read_count() const noexcept { return impl_->pos; }
maybe_shared_ptr<meta::external_record_meta> const& parquet_reader::meta() { return impl_->m; }
std::size_t parquet_reader::row_group_count() const noexcept { return impl_->f.groups.size(); }
std::shared_ptr<parquet_reader> parquet_reader::open(std::string_view path, reader_option const* opt, std::size_t group) {
    if (files::st().at) files::st().at();
    auto it = files::st().in.find(std::string{path});
    if (it == files::st().in.end() || it->second.groups.empty()) return {};
    auto r = std::make_shared<parquet_reader>();
    auto& i = *r->impl_;
    i.f = it->second;
    i.path = path;
    i.group = group == index_unspecified ? 0 : group;
    if (i.group >= i.f.groups.size()) return {};
    if (!opt) return r;
    i.mapped = true;
    i.opt = *opt;
    for (std::size_t c = 0; c < opt->loc_.size(); ++c) {
        auto& l = opt->loc_[c];
        std::size_t x = npos;
        if (!l.empty_) {
            x = l.index_ != npos ? l.index_ : static_cast<std::size_t>(std::find(i.f.names.begin(), i.f.names.end(), l.name_) - i.f.names.begin());
            if (x >= i.f.names.size() || i.f.types[x].k != opt->meta_->at(c).kind()) return {};
        }
        i.cols.push_back(x);
    }
    i.rec = std::make_unique<char[]>(opt->meta_->record_size() + 1);
    return r;
}

struct sink {
    files::Out* o = nullptr;
    maybe_shared_ptr<meta::external_record_meta> m{};
    std::size_t max = 0;
    static bool open(sink& s, maybe_shared_ptr<meta::external_record_meta> const& m, std::string_view path) {
        if (files::down(files::st().fail_open)) return false;
        std::error_code ec;
        bool over = std::filesystem::exists(std::string{path}, ec);
        std::ofstream f{std::string{path}};
        if (!f) return false;
        auto& o = files::st().out.emplace_back();
        o.path = path;
        o.over = over;
        for (std::size_t i = 0; i < m->field_count(); ++i) {
            o.names.push_back(std::string{m->field_name(i).value_or("")});
            o.kinds.push_back(m->at(i).kind());
        }
        s.o = &o;
        s.m = m;
        ++files::st().writers;
        return true;
    }
    bool write(accessor::record_ref r) const {
        if (o->closed) ++files::st().misuse;
        if (files::down(files::st().fail_write)) return false;
        std::vector<V> row;
        for (std::size_t i = 0; i < o->kinds.size(); ++i) {
            V v;
            v.k = o->kinds[i];
            if (r.is_null(m->nullity_offset(i))) v.null = true;
            else v = get(r, m->value_offset(i), o->kinds[i]);
            row.push_back(v);
        }
        o->rows.push_back(row);
        return true;
    }
    bool close() const {
        if (o->closed) return true;
        o->closed = true;
        return !files::down(files::st().fail_close);
    }
    ~sink() { if (o) { close(); --files::st().writers; } }
};
class parquet_writer::impl { public: sink s{}; };
parquet_writer::parquet_writer() : impl_(std::make_unique<impl>()) {}
parquet_writer::~parquet_writer() noexcept = default;
bool parquet_writer::write(accessor::record_ref r) { return impl_->s.write(r); }
bool parquet_writer::close() { return impl_->s.close(); }
std::string parquet_writer::path() const noexcept { return impl_->s.o->path; }
std::size_t parquet_writer::write_count() const noexcept { return impl_->s.o->rows.size(); }
void parquet_writer::new_row_group() {}
std::size_t parquet_writer::row_group_max_records() const noexcept { return 0; }
std::shared_ptr<parquet_writer> parquet_writer::open(maybe_shared_ptr<meta::external_record_meta> m, std::string_view path, parquet_writer_option opt) {
    auto w = std::make_shared<parquet_writer>();
    if (!sink::open(w->impl_->s, m, path)) return {};
    w->impl_->s.o->unit = opt.time_unit();
    return w;
}
class arrow_writer::impl { public: sink s{}; };
arrow_writer::arrow_writer() : impl_(std::make_unique<impl>()) {}
arrow_writer::~arrow_writer() noexcept = default;
bool arrow_writer::write(accessor::record_ref r) { return impl_->s.write(r); }
bool arrow_writer::close() { return impl_->s.close(); }
std::string arrow_writer::path() const noexcept { return impl_->s.o->path; }
std::size_t arrow_writer::write_count() const noexcept { return impl_->s.o->rows.size(); }
void arrow_writer::new_row_group() {}
std::size_t arrow_writer::calculated_batch_size() const noexcept { return impl_->s.max; }
std::size_t arrow_writer::row_group_max_records() const noexcept { return impl_->s.max; }
std::shared_ptr<arrow_writer> arrow_writer::open(maybe_shared_ptr<meta::external_record_meta> m, std::string_view path, arrow_writer_option opt) {
    auto w = std::make_shared<arrow_writer>();
    if (!sink::open(w->impl_->s, m, path)) return {};
    auto& o = *w->impl_->s.o;
    o.arrow = true;
    o.unit = opt.time_unit();
    o.batch = static_cast<std::size_t>(opt.record_batch_size());
    o.bytes = opt.record_batch_in_bytes();
    o.fixed_char = opt.use_fixed_size_binary_for_char();
    w->impl_->s.max = o.batch != 0 ? o.batch : 1000;
    return w;
}
}  // namespace jogasaki::executor::file

namespace {
// Tasks run one at a time, in an order the generator picks; where a load hands a statement to the scheduler, tasks may
// run before it goes on, as they do when other threads are quicker.
namespace sch = jogasaki::scheduler;
struct Sched : sch::task_scheduler {
    std::deque<sch::flat_task> q{};
    std::deque<sch::conditional_task> cq{};
    std::map<std::size_t, std::shared_ptr<sch::job_context>> jobs{};
    std::function<std::size_t(std::size_t)> order{};  // which of n tasks is next
    std::function<bool()> preempt{};
    int depth = 0;
    std::size_t preempted = 0;
    void one() {
        auto i = order ? order(q.size()) : 0;
        auto t = std::move(q[i]);
        q.erase(q.begin() + static_cast<std::ptrdiff_t>(i));
        tateyama::task_scheduler::context c{0};
        t(c);
    }
    void others() {
        if (!preempt || depth > 2) return;
        ++depth;
        while (!q.empty() && preempt()) { one(); ++preempted; }
        --depth;
    }
    void do_schedule_task(sch::flat_task&& t, sch::schedule_option) override {
        bool r = t.kind() == sch::flat_task_kind::resolve;
        q.emplace_back(std::move(t));
        if (r) others();
    }
    void do_schedule_conditional_task(sch::conditional_task&& t) override { cq.emplace_back(std::move(t)); }
    void wait_for_progress(std::size_t) override {
        while (true) {
            if (!q.empty()) { one(); continue; }
            if (cq.empty()) break;
            auto t = std::move(cq.front());
            cq.pop_front();
            if (t.check()) t();
            else cq.emplace_back(std::move(t));
        }
    }
    void start() override {}
    void stop() override { q.clear(); cq.clear(); }
    [[nodiscard]] sch::task_scheduler_kind kind() const noexcept override { return sch::task_scheduler_kind::serial; }
    void register_job(std::shared_ptr<sch::job_context> c) override { auto i = c->id(); PBT_CHECK(jobs.emplace(i, std::move(c)).second, "a job was registered twice"); }
    void unregister_job(std::size_t i) override { PBT_CHECK(jobs.erase(i) == 1, "a job was unregistered twice"); }
    void print_diagnostic(std::ostream&) override {}
};
template <auto P> struct Rob { friend auto& sched_of(api::impl::database& d) { return d.*P; } };
auto& sched_of(api::impl::database& d);
template struct Rob<&api::impl::database::task_scheduler_>;

struct Loads : World {
    std::shared_ptr<Sched> sched;
    std::string dir;
    int loads = 0, dumps = 0, failures = 0, multi = 0;
    u64 serial = 0;

    static Src& with(Src& src) {
        Engine::created() = [](api::impl::database& d) { sched_of(d) = std::make_shared<Sched>(); };
        return src;
    }
    explicit Loads(Src& src) : World(with(src)) {
        Engine::created() = {};
        sched = std::static_pointer_cast<Sched>(sched_of(*e.db));
        files::st() = {};
    }
    ~Loads() {
        files::st().at = {};
        sched->order = {};
        sched->preempt = {};
        if (!dir.empty()) { std::error_code ec; std::filesystem::remove_all(dir, ec); }
    }
    std::string const& scratch() {
        if (dir.empty()) {
            char p[] = "/tmp/verif-p31-XXXXXX";
            PBT_CHECK(mkdtemp(p) != nullptr, "no scratch directory");
            dir = p;
            std::filesystem::create_directory(dir + "/a");
            std::filesystem::create_directory(dir + "/b");
        }
        return dir;
    }
    std::optional<std::size_t> statement(std::size_t sess, Q q) {
        for (std::size_t i = 0; i < sts.size(); ++i) if (sts[i].q == q && !sts[i].gone && visible(sts[i].sess, sess)) return i;
        rq::Request r;
        auto* p = r.mutable_prepare();
        StM st{0, sess, q, {}};
        if (q == Q::insert_vars) {
            for (std::size_t c = 0; c < t.visible(); ++c) {
                auto a = near(t.cols[c].t);
                st.phs.push_back({cat("p", c), a, unbounded(a)});
            }
            st.text = e.text(declared(st.phs, insert_vars_stmt(st.phs)));
        } else if (q == Q::select) st.text = e.text(e.select_all("T0"));
        else {
            auto n = s.range(1, 5);
            for (i64 i = 0; i < n; ++i) { auto a = ATOMS[s.idx(std::size(ATOMS))]; st.phs.push_back({cat("p", i), a, unbounded(a)}); }
            st.text = e.text(declared(st.phs, vars_stmt(st.phs)));
        }
        p->set_sql(st.text);
        for (auto& h : st.phs) {
            auto* m = p->add_placeholders();
            m->set_name(h.name);
            m->set_atom_type(h.t);
        }
        auto jobs0 = sched->jobs.size();
        auto a = send(sess, r, rs::Response::kPrepare, "Prepare");
        PBT_CHECK(a.ok(), "Prepare: ", a.what());
        st.handle = a.r.prepare().prepared_statement_handle().handle();
        sts.push_back(st);
        return sts.size() - 1;
    }

    // ---- load
    struct Block { std::vector<Row_> rows; bool bad = false, contested = false; };
    void load() {
        auto sess = someone();
        bool in_tx = s.flip();
        if (!in_tx && writer()) in_tx = true;  // the storage engine of these checks does not keep transactions apart
        std::optional<std::size_t> ti;
        if (in_tx) {
            ti = some_tx(sess);
            if (auto w = writer(); w && ti && *w != *ti && txs[*ti].st == TxM::active && !txs[*ti].gone) { ti = w; sess = txs[*w].sess; }
        }
        auto q = s.chance(6) ? s.pick({Q::select, Q::vars}) : Q::insert_vars;
        auto si = s.chance(3) ? some_st(sess) : statement(sess, q);
        if (si && sts[*si].q != Q::insert_vars && sts[*si].q != q) return;
        rq::Request r;
        auto* m = r.mutable_execute_load();
        if (in_tx) put_tx(m->mutable_transaction_handle(), ti);
        m->mutable_prepared_statement_handle()->set_handle(st_handle(si));
        std::vector<Ph> phs;
        if (si) phs = sts[*si].phs;
        bool inserts = si && sts[*si].q == Q::insert_vars;
        // the columns of the files, in an order of their own
        struct From { bool ref = true, by_name = true, gone = false; std::size_t col = 0; Given g{}; };
        std::vector<From> from(phs.size());
        std::vector<std::size_t> at;  // file column -> placeholder, or none
        for (std::size_t i = 0; i < phs.size(); ++i) {
            bool key = false;
            if (inserts) for (auto& k : t.d.keys) key = key || k.col == i;
            from[i].ref = key || !s.chance(15);
        }
        if (!phs.empty() && std::none_of(from.begin(), from.end(), [](auto& f) { return f.ref; })) from[0].ref = true;
        for (std::size_t i = 0; i < phs.size(); ++i) if (from[i].ref) at.push_back(i);
        for (auto n = s.range(0, 2); n > 0; --n) at.push_back(static_cast<std::size_t>(-1));
        for (std::size_t i = at.size(); i > 1; --i) std::swap(at[i - 1], at[s.idx(i)]);
        for (std::size_t c = 0; c < at.size(); ++c) if (at[c] != static_cast<std::size_t>(-1)) from[at[c]].col = c;
        bool bad_ref = false, given_wrong = false, malformed = false, missing = false;
        std::string shown;
        for (std::size_t i = 0; i < phs.size(); ++i) {
            auto& f = from[i];
            if (!f.ref) {
                std::optional<V> fixed;
                if (inserts) fixed = cell(i, phs[i].ty).v;
                f.g = param(phs[i], m->add_parameters(), fixed);
                given_wrong = given_wrong || f.g.wrong;
                malformed = malformed || f.g.malformed;
                shown += cat(" ", phs[i].name, "=", f.g.wrong ? "(wrong type)" : cat(f.g.v));
                continue;
            }
            if (s.chance(1)) { missing = f.gone = true; shown += cat(" ", phs[i].name, " missing"); continue; }
            auto* p = m->add_parameters();
            p->set_name(phs[i].name);
            f.by_name = s.flip();
            bool off = s.chance(1);
            bad_ref = bad_ref || off;
            if (f.by_name) p->set_reference_column_name(off ? "nothing" : cat("f", f.col));
            else p->set_reference_column_position(off ? at.size() + static_cast<u64>(s.range(0, 2)) : f.col);
            shown += cat(" ", phs[i].name, f.by_name ? "=f" : "=#", f.col, off ? "(none)" : "");
        }
        // the files
        std::vector<Block> blocks;
        std::set<std::string> keys;
        bool no_file = false;
        std::size_t records = 0;
        auto nf = s.chance(5) ? 0 : s.range(1, 3);
        for (i64 k = 0; k < nf; ++k) {
            auto name = cat("/data/", ++serial);
            m->add_file(name);
            if (s.chance(1)) { no_file = true; shown += cat("; no file"); continue; }
            files::File f;
            bool mistyped = false;
            for (std::size_t c = 0; c < at.size(); ++c) {
                f.names.push_back(cat("f", c));
                auto ty = at[c] == static_cast<std::size_t>(-1) ? tree::ty(s.flip() ? K::int8 : K::character) : phs[at[c]].ty;
                if (at[c] != static_cast<std::size_t>(-1) && !from[at[c]].gone && s.chance(1)) { ty = tree::ty(ty.k == K::boolean ? K::date : K::boolean); mistyped = true; }
                f.types.push_back(ty);
            }
            auto ng = s.chance(2) ? 0 : s.range(1, 4);
            if (ng == 0 || mistyped) no_file = true;
            shown += cat("; file of", mistyped ? " wrong columns" : "");
            if (ng > 1) ++multi;
            for (i64 g = 0; g < ng; ++g) {
                files::Rows rows;
                Block b;
                for (auto n = s.chance(10) ? 0 : s.range(0, 4); n > 0; --n) {
                    std::vector<V> given;
                    std::vector<Engine::Cell> cells;
                    Row_ row;
                    bool good = false;
                    for (int tries = 0; tries < 6 && !good; ++tries) {
                        given.clear();
                        cells.clear();
                        for (std::size_t i = 0; i < phs.size(); ++i) {
                            V v = !from[i].ref ? from[i].g.v : inserts ? cell(i, phs[i].ty).v : tidy(phs[i].ty, gen_value(s, phs[i].ty, 40));
                            v.k = phs[i].ty.k;
                            given.push_back(v);
                            cells.push_back({v, Ty{}});
                        }
                        if (!inserts) { good = true; break; }
                        good = insert(cells, row).empty() && !keys.count(t.key(row));
                        if (good) keys.insert(t.key(row));
                        else if (s.chance(4)) break;
                    }
                    if (!good && !s.chance(10)) continue;
                    if (!good && inserts) {
                        bool dup = insert(cells, row).empty() && std::none_of(b.rows.begin(), b.rows.end(), [&](auto& o) { return t.key(o) == t.key(row); });
                        (dup ? b.contested : b.bad) = true;
                    }
                    b.rows.push_back(row);
                    ++records;
                    std::vector<V> rec;
                    for (std::size_t c = 0; c < at.size(); ++c) {
                        V v;
                        if (at[c] == static_cast<std::size_t>(-1)) { v.k = f.types[c].k; v.i = 3; v.s = "x"; }
                        else if (mistyped) { v.k = f.types[c].k; v.i = 1; }
                        else v = given[at[c]];
                        rec.push_back(v);
                    }
                    rows.push_back(rec);
                }
                if (mistyped) b.bad = true;
                blocks.push_back(b);
                f.groups.push_back(rows);
                shown += cat(" ", rows.size(), b.bad ? "(bad)" : b.contested ? "(duplicate)" : "");
            }
            files::st().in[name] = f;
        }
        bool rows_bad = std::any_of(blocks.begin(), blocks.end(), [](auto& b) { return b.bad || b.contested; });
        // what may go wrong underneath
        fake::st().delivered.clear();
        if (!in_tx && s.chance(12)) {
            if (s.flip()) fake::st().faults.push_back({"transaction_begin", s.range(0, 3), sharksfin::StatusCode::ERR_UNKNOWN});
            else fake::st().faults.push_back({"transaction_commit", s.range(0, 3), s.pick({sharksfin::StatusCode::ERR_ABORTED_RETRYABLE, sharksfin::StatusCode::ERR_INACTIVE_TRANSACTION})});
        }
        if (!in_tx) {
            auto pct = s.pick({0, 30, 60, 85});
            bool mix = s.flip();
            if (mix) sched->order = [this](std::size_t n) { return s.idx(n); };
            if (pct) {
                sched->preempt = [this, pct] { return s.chance(pct); };
                files::st().at = [this] { sched->others(); };
            }
        }
        auto open0 = fake::st().open_tx;
        auto count0 = e.db->transaction_count();
        auto what = cat(in_tx ? "ExecuteLoad in a transaction" : "ExecuteLoad");
        s.note(what, " by session ", sessions[sess].id, ti ? cat(" in transaction ", *ti) : std::string{}, " of ", si ? name(sts[*si].q) : "nothing", shown);
        auto jobs0 = sched->jobs.size();
        auto a = send(sess, r, rs::Response::kExecuteResult, what);
        bool hit = !fake::st().delivered.empty();
        fake::st().faults.clear();
        fake::st().delivered.clear();
        sched->order = {};
        sched->preempt = {};
        files::st().at = {};
        s.note("  -> ", a.what(), hit ? " after a failure of the storage engine" : "");
        PBT_EQ(files::st().readers, 0U, what, ": files left open");
        PBT_EQ(files::st().misuse, 0U, what, ": misuse of a file");
        PBT_CHECK(sched->jobs.size() <= jobs0, what, ": ", sched->jobs.size(), " jobs left of ", jobs0);
        PBT_EQ(e.db->transaction_count(), count0, what, ": transactions");
        ++loads;
        if (!a.ok()) ++failures;
        auto alive = in_tx && alive_tx(ti, sess);
        auto* x = alive ? &txs[*ti] : nullptr;
        auto refused = [&](bool ends) {
            PBT_CHECK(!a.ok(), what, " succeeded");
            if (!x) return;
            if (x->st != TxM::active) { x->known = false; return; }
            if (!ends) { sync(ti); x->known = false; return; }
            aborted(*x, std::nullopt);
            x->known = false;
            auto st = status_of(*ti);
            PBT_CHECK(st == rs::ABORTED, what, ": the transaction has status ", st, " after a load that failed");
        };
        if (malformed && (!x || !alive_st(si, sess))) { PBT_CHECK(!a.ok(), what, " succeeded"); if (x) { sync(ti); x->known = false; } return; }
        if (in_tx && !alive) { expect(a, {error_code::transaction_not_found_exception}, what); return; }
        if (!alive_st(si, sess)) { expect(a, {error_code::statement_not_found_exception}, what); if (x) { sync(ti); x->known = false; } return; }
        if (malformed) return refused(false);
        if (!in_tx) PBT_CHECK(fake::st().open_tx <= open0, what, ": ", fake::st().open_tx, " transactions of the storage engine after ", open0);
        if (!inserts) {  // a query has nothing to load into; its rows go nowhere
            if (!a.ok()) { if (x) { sync(ti); x->known = false; } }
            return;
        }
        bool trouble = no_file || (bad_ref && nf > 0) || ((given_wrong || missing) && records > 0) || rows_bad || (alice(sess) && records > 0);
        if (in_tx) {
            if (x->st != TxM::active) {
                if (records > 0 || trouble) return refused(false);
                x->known = false;
                return;
            }
            if (x->readonly && records > 0) return refused(false);
            if (trouble) { s.label("failed load in a transaction"); return refused(true); }
            PBT_CHECK(a.ok(), what, ": ", a.what());
            if (records > 0 && !x->wrote) { x->wrote = true; x->before = t.rows; }
            for (auto& b : blocks) for (auto& row : b.rows) t.put(row);
            s.label("load in a transaction");
            return;
        }
        if (trouble || hit) PBT_CHECK(!a.ok(), what, " succeeded", hit ? " though the storage engine failed" : "");
        else PBT_CHECK(a.ok(), what, ": ", a.what());
        if (alice(sess)) { s.label("load without privileges"); return; }
        if (a.ok()) {
            for (auto& b : blocks) for (auto& row : b.rows) t.put(row);
            s.label("load");
            return;
        }
        // every block of the files is there as a whole or not at all
        s.label("failed load");
        std::size_t done = 0;
        auto p = e.storage("T0");
        std::vector<Block const*> whole;
        for (auto& b : blocks) {
            if (b.bad || b.rows.empty()) continue;
            bool all = std::all_of(b.rows.begin(), b.rows.end(), [&](auto& row) {
                auto it = p->data.find(t.key(row));
                return it != p->data.end() && !t.rows.count(t.key(row)) && it->second == t.value(row);
            });
            if (all) whole.push_back(&b);
        }
        for (auto* b : whole) for (auto& row : b->rows) t.put(row);
        done = whole.size();
        if (done) s.label("failed load with blocks done");
    }

    // ---- dump
    void dump() {
        auto sess = someone();
        auto ti = some_tx(sess);
        auto q = s.chance(5) ? Q::insert_vars : s.chance(15) ? Q::vars : Q::select;
        auto si = s.chance(3) ? some_st(sess) : statement(sess, q);
        rq::Request r;
        auto* m = r.mutable_execute_dump();
        put_tx(m->mutable_transaction_handle(), ti);
        m->mutable_prepared_statement_handle()->set_handle(st_handle(si));
        std::vector<Given> given;
        if (si) for (std::size_t i = 0; i < sts[*si].phs.size(); ++i) {
            if (s.chance(2)) { given.push_back({false}); continue; }
            std::optional<V> fixed;
            if (sts[*si].q == Q::insert_vars) fixed = cell(i, sts[*si].phs[i].ty).v;
            given.push_back(param(sts[*si].phs[i], m->add_parameters(), fixed));
        }
        auto sub = s.chance(3) ? "/none" : s.flip() ? "/a" : "/b";
        m->set_directory(scratch() + sub);
        std::size_t max = 0, batch = 0;
        i64 bytes = 0;
        bool arrow = false, keep = false, fixed_char = false;
        auto unit = sq::common::TIME_UNIT_UNSPECIFIED;
        if (s.chance(80)) {
            auto* o = m->mutable_option();
            if (s.chance(60)) { max = static_cast<std::size_t>(s.range(1, 6)); o->set_max_record_count_per_file(max); }
            auto fb = s.pick({rq::DUMP_FAIL_BEHAVIOR_UNSPECIFIED, rq::DELETE_FILES, rq::KEEP_FILES});
            keep = fb == rq::KEEP_FILES;
            o->set_fail_behavior(fb);
            unit = s.pick({sq::common::TIME_UNIT_UNSPECIFIED, sq::common::NANOSECOND, sq::common::MICROSECOND, sq::common::MILLISECOND});
            o->set_timestamp_unit(unit);
            if (s.flip()) {
                arrow = true;
                auto* f = o->mutable_arrow();
                if (s.flip()) { batch = static_cast<std::size_t>(s.range(1, 3)); f->set_record_batch_size(static_cast<i64>(batch)); }
                if (s.chance(20)) { bytes = s.range(1000, 2000); f->set_record_batch_in_bytes(bytes); }
                fixed_char = s.flip();
                if (fixed_char) f->set_character_field_type(rq::FIXED_SIZE_BINARY);
            } else if (s.flip()) o->mutable_parquet();
        }
        auto& fs = files::st();
        fs.out.clear();
        fs.hit = false;
        if (s.chance(20)) (s.flip() ? fs.fail_write : s.flip() ? fs.fail_open : fs.fail_close) = static_cast<int>(s.range(0, 4));
        auto o = trouble(true);
        auto what = cat("ExecuteDump of ", si ? name(sts[*si].q) : "nothing");
        std::size_t had = 0;
        std::set<std::string> old;
        for (auto& d : {"/a", "/b"}) for (auto& f : std::filesystem::directory_iterator(dir + d)) { old.insert(f.path().string()); ++had; }
        auto jobs0 = sched->jobs.size();
        auto a = send(sess, r, rs::Response::kResultOnly, what, o);
        bool hit = fs.hit;
        fs.fail_open = fs.fail_write = fs.fail_close = -1;
        s.note(what, " by session ", sessions[sess].id, " in ", ti ? cat("transaction ", *ti) : "no transaction", " into ", sub, arrow ? " arrow" : "", max ? cat(" at most ", max) : std::string{}, keep ? " keeping files" : "", hit ? ", a file fails" : "",
            " -> ", a.what(), ", ", fs.out.size(), " files");
        ++dumps;
        if (!a.ok()) ++failures;
        PBT_EQ(fs.writers, 0U, what, ": files left open");
        PBT_EQ(fs.misuse, 0U, what, ": misuse of a file");
        for (auto& f : fs.out) PBT_CHECK(!f.over, what, ": the file ", f.path.substr(dir.size()), " of another dump was overwritten");
        PBT_CHECK(sched->jobs.size() <= jobs0, what, ": ", sched->jobs.size(), " jobs left of ", jobs0);
        std::size_t have = 0;
        for (auto& d : {"/a", "/b"}) for (auto& f : std::filesystem::directory_iterator(dir + d)) { ++have; old.erase(f.path().string()); }
        PBT_CHECK(old.empty(), what, ": a file of an earlier dump is gone");
        if (a.ok() || keep) PBT_EQ(have, had + fs.out.size(), what, ": number of files");
        else PBT_EQ(have, had, what, ": number of files after a dump that failed");
        bool alive = alive_tx(ti, sess);
        auto* x = alive ? &txs[*ti] : nullptr;
        auto refused = [&](std::set<error_code> const& c) {
            if (!c.empty()) expect(a, c, what);
            else PBT_CHECK(!a.ok(), what, " succeeded");
            if (x) { sync(ti); x->known = false; }
        };
        if (!alive) { for (auto& g : given) if (g.malformed || g.wrong || !g.present) return refused({}); return refused({error_code::transaction_not_found_exception, error_code::statement_not_found_exception}); }
        for (auto& g : given) if (g.malformed || g.wrong || !g.present) return refused({});
        if (!alive_st(si, sess)) return refused({error_code::statement_not_found_exception});
        auto& st = sts[*si];
        if (st.q != Q::select && st.q != Q::vars) return refused({});
        if (o->refuse_channel) return refused({error_code::sql_limit_reached_exception});
        if (x->st != TxM::active) return refused(alice(sess) ? std::set<error_code>{error_code::permission_error, error_code::inactive_transaction_exception} : std::set<error_code>{error_code::inactive_transaction_exception});
        if (alice(sess) && st.q == Q::select) { s.label("dump without privileges"); return refused({error_code::permission_error}); }
        if (o->cancel && !a.ok()) {
            PBT_CHECK(a.diag && a.dcode == Code::OPERATION_CANCELED, what, ": ", a.what());
            auto ss = status_of(*ti);
            PBT_CHECK(ss == rs::ABORTED || ss == rs::UNTRACKED, what, ": the transaction has status ", ss, " after the cancel");
            drop_changes(*x);
            x->st = TxM::aborted;
            x->known = false;
            return;
        }
        files::Rows want;
        std::vector<std::string> names;
        std::vector<Ty> types;
        if (st.q == Q::select) { want = table_rows(); names = table_names(); types = table_types(); }
        else {
            want.emplace_back();
            for (std::size_t i = 0; i < st.phs.size(); ++i) {
                names.push_back("c_" + st.phs[i].name);
                types.push_back(st.phs[i].ty);
                want[0].push_back(given[i].v);
                want[0].back().k = st.phs[i].ty.k;
            }
        }
        if (hit) { s.label("dump with a file that fails"); return refused({}); }
        if (std::string_view{sub} == "/none" && !want.empty()) return refused({});
        if (o->refuse_writer && o->ch && o->ch->refused) return refused({});
        if (o->fail_at == 0 && !want.empty()) { s.label("dump whose list cannot be written"); return refused({}); }
        if (o->fail_at > 0) {
            if (!a.ok()) return refused({});
            for (auto& w : o->ch->all) if (static_cast<int>(w->data.size()) > o->fail_at + 200) return;
        }
        PBT_CHECK(a.ok(), what, ": ", a.what());
        if (fs.out.size() > 1) ++multi;
        std::vector<std::vector<V>> list;
        std::multiset<std::string> w, g;
        for (auto& row : want) w.insert(canon(row));
        std::set<std::string> paths;
        for (auto& f : fs.out) {
            PBT_CHECK(f.closed, what, ": a file is not complete");
            PBT_CHECK(paths.insert(f.path).second, what, ": the file ", f.path, " was written twice");
            PBT_CHECK(f.path.rfind(dir + sub + "/", 0) == 0, what, ": the file ", f.path, " is in another directory");
            V v;
            v.k = K::character;
            v.s = f.path;
            list.push_back({v});
            if (max) PBT_CHECK(f.rows.size() <= max, what, ": ", f.rows.size(), " records in a file of at most ", max);
            if (batch) PBT_CHECK(f.rows.size() <= 16 * batch, what, ": ", f.rows.size(), " records in a file with batches of ", batch);
            PBT_CHECK(!f.rows.empty(), what, ": a file without records");
            PBT_EQ(f.arrow, arrow, what, ": whether the file is an Arrow file");
            if (arrow) {
                PBT_EQ(f.batch, batch, what, ": records of a batch");
                PBT_EQ(f.bytes, bytes, what, ": bytes of a batch");
                PBT_EQ(f.fixed_char, fixed_char, what, ": fixed size characters");
            }
            PBT_EQ(static_cast<int>(f.unit), static_cast<int>(unit), what, ": unit of time");
            PBT_CHECK(f.names == names, what, ": names of the columns of a file");
            for (std::size_t c = 0; c < types.size(); ++c) {
                auto k = types[c].k == K::int1 || types[c].k == K::int2 ? K::int4 : types[c].k;
                PBT_EQ(static_cast<int>(f.kinds[c]), static_cast<int>(k), what, ": type of column ", names[c]);
            }
            for (auto& row : f.rows) {
                auto y = row;
                for (std::size_t c = 0; c < types.size(); ++c) y[c].k = types[c].k;
                g.insert(canon(y));
            }
        }
        for (auto& row : w) PBT_EQ(g.count(row), w.count(row), what, ": number of records ", row, " in the files");
        for (auto& row : g) PBT_EQ(g.count(row), w.count(row), what, ": number of records ", row, " in the files");
        Ty path;
        path.k = K::character;
        path.varying = true;
        result(a, {"file_name"}, {path}, list, what);
        s.label("dump");
    }
    void go() {
        switch (s.draw(15)) {
            case 0: case 1: begin(); break;
            case 2: execute_text(); break;
            case 3: execute_prepared(); break;
            case 4: commit(); break;
            case 5: if (s.flip()) rollback(); else dispose_tx(); break;
            case 6: case 7: case 8: case 9: case 10: load(); break;
            case 11: case 12: case 13: case 14: dump(); break;
            default: if (s.flip()) error_info(); else if (s.flip()) dispose_st(); else durable(); break;
        }
        PBT_EQ(fake::st().open_iterators, 0U, "iterators left open");
        PBT_CHECK(!fake::st().misuse, "misuse of the storage engine");
        t.check(e, "after a request");
    }
};

PBT_FACET(f_files, "files loaded and dumped carry every row once", "a load of several blocks or a dump into several files, and a request that failed", .quick = 40000, .hang_s = 60) {
    Loads w{s};
    w.begin();
    auto n = s.range(1, 14);
    for (i64 i = 0; i < n; ++i) w.go();
    w.finish();
    if (w.loads > 0 && w.dumps > 0 && w.multi > 0 && w.failures > 0) s.nontrivial();
}
}  // namespace

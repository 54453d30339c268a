// An in-memory transaction engine behind the sharksfin API: ordered tables, undo on abort, sequences whose versions
// become durable with the transaction that put them, and faults injected call by call.
// Transactions are not isolated from each other (harnesses run writers of the same keys one at a time).
#include <atomic>
#include <deque>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <string>
#include <thread>
#include <vector>
#include <sharksfin/api.h>
namespace fake {
using sharksfin::StatusCode;
struct Table {
    std::string name;
    sharksfin::StorageOptions opts;
    std::map<std::string, std::string> data;
    std::map<std::string, std::vector<std::uint64_t>> blobs;
};
struct Undo { std::shared_ptr<Table> t; std::string key; bool had; std::string old; };
struct SeqPut { std::size_t id, version; std::int64_t value; };
struct Fault { std::string op; long countdown; StatusCode code; };
struct Call { std::string op; std::string table, key; };
struct State {
    std::recursive_mutex m;
    std::map<std::string, std::shared_ptr<Table>> tables;
    std::map<std::size_t, std::map<std::size_t, std::int64_t>> seq;  // durable values by version
    std::size_t next_seq{7};
    std::size_t next_tx{1};
    std::vector<Fault> faults;             // one shot
    std::vector<StatusCode> delivered;     // faults that fired
    std::map<std::string, std::size_t> calls;
    std::size_t open_iterators{}, open_storages{}, open_tx{};
    std::size_t commits{}, aborts{};
    bool misuse{};                         // an API call the engine forbids
    std::string misuse_what;
    bool async_commit{};
    std::function<void(std::string const&)> on_call{};
    std::uint64_t marker{1};               // of the last commit
    std::uint64_t durable{};               // reported as durable
    bool auto_durable{true};               // every commit becomes durable at once
    std::function<void(std::uint64_t)> durability{};
    std::map<std::string, std::size_t> failed;  // calls by operation that a fault made fail
    void bad(std::string w) { misuse = true; if (misuse_what.empty()) misuse_what = std::move(w); }
};
inline State& st() { static State s; return s; }
inline void reset() {
    auto& s = st();
    s.tables.clear(); s.seq.clear(); s.next_seq = 7; s.faults.clear(); s.delivered.clear(); s.calls.clear(); s.misuse = false; s.misuse_what.clear();
    s.open_iterators = s.open_storages = s.open_tx = s.commits = s.aborts = 0; s.async_commit = false; s.on_call = {};
    s.marker = 1; s.durable = 0; s.auto_durable = true; s.durability = {}; s.failed.clear();
}
inline StatusCode enter(std::string const& op) {
    auto& s = st();
    ++s.calls[op];
    if (s.on_call) s.on_call(op);
    for (auto it = s.faults.begin(); it != s.faults.end(); ++it)
        if (it->op == op && it->countdown-- == 0) {
            auto c = it->code;
            s.faults.erase(it);
            s.delivered.push_back(c);
            ++s.failed[op];
            return c;
        }
    return StatusCode::OK;
}
inline bool aborts(StatusCode c) {
    return c == StatusCode::ERR_ABORTED || c == StatusCode::ERR_ABORTED_RETRYABLE || c == StatusCode::ERR_CONFLICT_ON_WRITE_PRESERVE || c == StatusCode::ERR_READ_AREA_VIOLATION;
}
}  // namespace fake
namespace sharksfin {
struct DatabaseStub { int dummy{}; };
struct TransactionStub { struct TransactionControlStub* c{}; bool strand{}; std::string buf; };
struct TransactionControlStub {
    DatabaseStub* db{};
    TransactionOptions opts{};
    bool active{true}, committed{false};
    std::vector<fake::Undo> undo;
    std::vector<fake::SeqPut> seqs;
    std::shared_ptr<TransactionInfo> info;
    std::shared_ptr<CallResult> recent;
    TransactionStub self{};
    void rollback() {
        for (auto it = undo.rbegin(); it != undo.rend(); ++it) {
            if (it->had) it->t->data[it->key] = it->old;
            else it->t->data.erase(it->key);
        }
        undo.clear();
        seqs.clear();
        active = false;
        ++fake::st().aborts;
    }
};
struct StorageStub { std::shared_ptr<fake::Table> t; };
struct IteratorStub {
    TransactionControlStub* tx;
    std::shared_ptr<fake::Table> t;
    std::vector<std::string> keys;
    std::size_t pos{};
    bool started{};
    std::string k, v;
};
using Guard = std::lock_guard<std::recursive_mutex>;
StatusCode implementation_id(Slice* name) { *name = Slice{"fake"}; return StatusCode::OK; }
StatusCode implementation_get_datastore(DatabaseHandle, std::any*) { return StatusCode::ERR_NOT_IMPLEMENTED; }
StatusCode database_open(DatabaseOptions const&, void*, DatabaseHandle* r) { *r = new DatabaseStub{}; return StatusCode::OK; }
StatusCode database_close(DatabaseHandle) { fake::st().durability = {}; return StatusCode::OK; }
StatusCode database_dispose(DatabaseHandle h) { delete h; return StatusCode::OK; }
StatusCode database_register_durability_callback(DatabaseHandle, durability_callback_type cb) {
    fake::st().durability = cb;
    fake::st().durable = fake::st().marker;
    cb(fake::st().marker);
    return StatusCode::OK;
}
StatusCode storage_create(DatabaseHandle, Slice key, StorageOptions const& o, StorageHandle* r) {
    Guard g{fake::st().m};
    if (auto c = fake::enter("storage_create"); c != StatusCode::OK) return c;
    auto& t = fake::st().tables[key.to_string()];
    if (t) return StatusCode::ALREADY_EXISTS;
    t = std::make_shared<fake::Table>();
    t->name = key.to_string();
    t->opts = o;
    ++fake::st().open_storages;
    *r = new StorageStub{t};
    return StatusCode::OK;
}
StatusCode storage_create(TransactionHandle, Slice key, StorageOptions const& o, StorageHandle* r) { return storage_create(DatabaseHandle{}, key, o, r); }
StatusCode storage_get(DatabaseHandle, Slice key, StorageHandle* r) {
    Guard g{fake::st().m};
    if (auto c = fake::enter("storage_get"); c != StatusCode::OK) return c;
    auto it = fake::st().tables.find(key.to_string());
    if (it == fake::st().tables.end()) return StatusCode::NOT_FOUND;
    ++fake::st().open_storages;
    *r = new StorageStub{it->second};
    return StatusCode::OK;
}
StatusCode storage_get(TransactionHandle, Slice key, StorageHandle* r) { return storage_get(DatabaseHandle{}, key, r); }
StatusCode storage_delete(StorageHandle h) {
    Guard g{fake::st().m};
    if (auto c = fake::enter("storage_delete"); c != StatusCode::OK) return c;
    auto it = fake::st().tables.find(h->t->name);
    if (it == fake::st().tables.end() || it->second != h->t) return StatusCode::NOT_FOUND;
    fake::st().tables.erase(it);
    return StatusCode::OK;
}
StatusCode storage_delete(TransactionHandle, StorageHandle h) { return storage_delete(h); }
StatusCode storage_list(DatabaseHandle, std::vector<std::string>& out) {
    Guard g{fake::st().m};
    if (auto c = fake::enter("storage_list"); c != StatusCode::OK) return c;
    out.clear();
    for (auto& [k, v] : fake::st().tables) out.push_back(k);
    return StatusCode::OK;
}
StatusCode storage_get_options(StorageHandle h, StorageOptions& o) { Guard g{fake::st().m}; o = h->t->opts; return StatusCode::OK; }
StatusCode storage_set_options(StorageHandle h, StorageOptions const& o) { Guard g{fake::st().m}; h->t->opts = o; return StatusCode::OK; }
StatusCode storage_dispose(StorageHandle h) {
    Guard g{fake::st().m};
    if (h) { --fake::st().open_storages; delete h; }
    return StatusCode::OK;
}
StatusCode transaction_begin(DatabaseHandle db, TransactionOptions const& o, TransactionControlHandle* r) {
    Guard g{fake::st().m};
    if (auto c = fake::enter("transaction_begin"); c != StatusCode::OK) return c;
    auto* t = new TransactionControlStub{};
    t->db = db;
    t->opts = o;
    t->self.c = t;
    t->info = std::make_shared<TransactionInfo>("TID-" + std::to_string(fake::st().next_tx++));
    ++fake::st().open_tx;
    *r = t;
    return StatusCode::OK;
}
StatusCode transaction_borrow_handle(TransactionControlHandle h, TransactionHandle* r) { *r = &h->self; return StatusCode::OK; }
StatusCode transaction_acquire_handle(TransactionControlHandle h, TransactionHandle* r) { *r = new TransactionStub{h, true, {}}; return StatusCode::OK; }
StatusCode transaction_release_handle(TransactionHandle h) {
    if (h && h->strand) delete h;
    return StatusCode::OK;
}
StatusCode transaction_borrow_owner(TransactionHandle h, DatabaseHandle* r) { *r = h->c->db; return StatusCode::OK; }
bool transaction_commit_with_callback(TransactionControlHandle h, commit_callback_type cb) {
    StatusCode rc{};
    std::uint64_t mark = 0;
    {
        Guard g{fake::st().m};
        rc = fake::enter("transaction_commit");
        if (!h->active) rc = StatusCode::ERR_INACTIVE_TRANSACTION;
        else if (rc != StatusCode::OK) h->rollback();
        else {
            for (auto& p : h->seqs) fake::st().seq[p.id][p.version] = p.value;
            h->undo.clear();
            h->seqs.clear();
            h->active = false;
            h->committed = true;
            ++fake::st().commits;
            mark = ++fake::st().marker;
        }
    }
    if (fake::st().async_commit) {
        std::thread([cb, rc, mark]() { cb(rc, rc == StatusCode::OK ? ErrorCode::OK : ErrorCode::ERROR, mark); }).detach();
        return false;
    }
    cb(rc, rc == StatusCode::OK ? ErrorCode::OK : ErrorCode::ERROR, mark);
    if (mark != 0 && fake::st().auto_durable && fake::st().durability) {
        fake::st().durable = mark;
        fake::st().durability(mark);
    }
    return true;
}
StatusCode transaction_commit(TransactionControlHandle h, bool) {
    StatusCode out{};
    transaction_commit_with_callback(h, [&](StatusCode c, ErrorCode, durability_marker_type) { out = c; });
    return out;
}
StatusCode transaction_abort(TransactionControlHandle h, bool) {
    Guard g{fake::st().m};
    if (auto c = fake::enter("transaction_abort"); c != StatusCode::OK) return c;
    if (h->active) h->rollback();
    return StatusCode::OK;
}
StatusCode transaction_dispose(TransactionControlHandle h) {
    Guard g{fake::st().m};
    if (h) {
        if (h->active) h->rollback();
        --fake::st().open_tx;
        delete h;
    }
    return StatusCode::OK;
}
StatusCode transaction_check(TransactionControlHandle h, TransactionState& r) {
    Guard g{fake::st().m};
    r = TransactionState{h->committed ? TransactionState::StateKind::DURABLE : h->active ? TransactionState::StateKind::STARTED : TransactionState::StateKind::ABORTED};
    return StatusCode::OK;
}
StatusCode transaction_get_info(TransactionControlHandle h, std::shared_ptr<TransactionInfo>& r) { r = h->info; return StatusCode::OK; }
std::shared_ptr<CallResult> transaction_inspect_recent_call(TransactionControlHandle h) { Guard g{fake::st().m}; return h->recent; }
static StatusCode op_enter(TransactionControlStub* c, char const* op, bool write = false) {
    if (!c->active) return StatusCode::ERR_INACTIVE_TRANSACTION;
    if (write && c->opts.transaction_type() == TransactionOptions::TransactionType::READ_ONLY) return StatusCode::ERR_ILLEGAL_OPERATION;
    auto rc = fake::enter(op);
    if (fake::aborts(rc)) c->rollback();
    return rc;
}
StatusCode content_check_exist(TransactionHandle tx, StorageHandle s, Slice key) {
    Guard g{fake::st().m};
    if (auto c = op_enter(tx->c, "content_get"); c != StatusCode::OK) return c;
    return s->t->data.count(key.to_string()) ? StatusCode::OK : StatusCode::NOT_FOUND;
}
StatusCode content_get(TransactionHandle tx, StorageHandle s, Slice key, Slice* r) {
    Guard g{fake::st().m};
    if (auto c = op_enter(tx->c, "content_get"); c != StatusCode::OK) return c;
    auto it = s->t->data.find(key.to_string());
    if (it == s->t->data.end()) return StatusCode::NOT_FOUND;
    tx->buf = it->second;
    tx->buf.shrink_to_fit();
    *r = Slice{tx->buf};
    return StatusCode::OK;
}
static void remember(TransactionControlStub* c, std::shared_ptr<fake::Table> const& t, std::string const& k) {
    auto it = t->data.find(k);
    c->undo.push_back(fake::Undo{t, k, it != t->data.end(), it != t->data.end() ? it->second : std::string{}});
}
StatusCode content_put_with_blobs(TransactionHandle tx, StorageHandle s, Slice key, Slice value, blob_id_type const* blobs, std::size_t n, PutOperation op) {
    Guard g{fake::st().m};
    if (auto c = op_enter(tx->c, "content_put", true); c != StatusCode::OK) return c;
    auto k = key.to_string();
    bool found = s->t->data.count(k) != 0;
    if (op == PutOperation::CREATE && found) return StatusCode::ALREADY_EXISTS;
    if (op == PutOperation::UPDATE && !found) return StatusCode::NOT_FOUND;
    remember(tx->c, s->t, k);
    s->t->data[k] = value.to_string();
    s->t->blobs[k].assign(blobs, blobs + n);
    return StatusCode::OK;
}
StatusCode content_put(TransactionHandle tx, StorageHandle s, Slice key, Slice value, PutOperation op) { return content_put_with_blobs(tx, s, key, value, nullptr, 0, op); }
StatusCode content_delete(TransactionHandle tx, StorageHandle s, Slice key) {
    Guard g{fake::st().m};
    if (auto c = op_enter(tx->c, "content_delete", true); c != StatusCode::OK) return c;
    auto k = key.to_string();
    if (!s->t->data.count(k)) return StatusCode::NOT_FOUND;
    remember(tx->c, s->t, k);
    s->t->data.erase(k);
    return StatusCode::OK;
}
// the least key above every key that starts with the given one, or nothing
static std::optional<std::string> next_prefix(std::string k) {
    while (!k.empty()) {
        if (static_cast<unsigned char>(k.back()) != 0xffU) { ++k.back(); return k; }
        k.pop_back();
    }
    return {};
}
static bool blt(std::string const& a, std::string const& b) {
    auto n = std::min(a.size(), b.size());
    int c = n == 0 ? 0 : std::memcmp(a.data(), b.data(), n);
    return c != 0 ? c < 0 : a.size() < b.size();
}
StatusCode content_scan(TransactionHandle tx, StorageHandle s, Slice bk, EndPointKind b, Slice ek, EndPointKind e, IteratorHandle* r, std::size_t limit, bool reverse) {
    Guard g{fake::st().m};
    if (auto c = op_enter(tx->c, "content_scan"); c != StatusCode::OK) return c;
    auto bs = bk.to_string(), es = ek.to_string();
    auto prefix = [](std::string const& k, std::string const& p) { return k.size() >= p.size() && k.compare(0, p.size(), p) == 0; };
    auto* it = new IteratorStub{tx->c, s->t, {}, 0, false, {}, {}};
    for (auto& [k, v] : s->t->data) {
        bool lo = true, hi = true;
        switch (b) {
            case EndPointKind::UNBOUND: break;
            case EndPointKind::INCLUSIVE: case EndPointKind::PREFIXED_INCLUSIVE: lo = !blt(k, bs); break;
            case EndPointKind::EXCLUSIVE: lo = blt(bs, k); break;
            case EndPointKind::PREFIXED_EXCLUSIVE: lo = !blt(k, bs) && !prefix(k, bs); break;
        }
        switch (e) {
            case EndPointKind::UNBOUND: break;
            case EndPointKind::INCLUSIVE: hi = !blt(es, k); break;
            case EndPointKind::EXCLUSIVE: case EndPointKind::PREFIXED_EXCLUSIVE: hi = blt(k, es); break;
            case EndPointKind::PREFIXED_INCLUSIVE: hi = blt(k, es) || prefix(k, es); break;
        }
        if (lo && hi) it->keys.push_back(k);
    }
    std::sort(it->keys.begin(), it->keys.end(), blt);
    if (reverse) std::reverse(it->keys.begin(), it->keys.end());
    if (limit != 0 && it->keys.size() > limit) it->keys.resize(limit);
    ++fake::st().open_iterators;
    *r = it;
    return StatusCode::OK;
}
StatusCode iterator_next(IteratorHandle h) {
    Guard g{fake::st().m};
    if (auto c = op_enter(h->tx, "iterator_next"); c != StatusCode::OK) return c;
    if (h->started) ++h->pos;
    h->started = true;
    while (h->pos < h->keys.size() && !h->t->data.count(h->keys[h->pos])) ++h->pos;
    if (h->pos >= h->keys.size()) return StatusCode::NOT_FOUND;
    h->k = h->keys[h->pos];
    h->v = h->t->data[h->k];
    h->k.shrink_to_fit();
    h->v.shrink_to_fit();
    return StatusCode::OK;
}
StatusCode iterator_get_key(IteratorHandle h, Slice* r) {
    Guard g{fake::st().m};
    if (!h->started || h->pos >= h->keys.size()) { fake::st().bad("iterator_get_key without a current entry"); return StatusCode::ERR_INVALID_STATE; }
    if (auto c = op_enter(h->tx, "iterator_get_key"); c != StatusCode::OK) return c;
    *r = Slice{h->k};
    return StatusCode::OK;
}
StatusCode iterator_get_value(IteratorHandle h, Slice* r) {
    Guard g{fake::st().m};
    if (!h->started || h->pos >= h->keys.size()) { fake::st().bad("iterator_get_value without a current entry"); return StatusCode::ERR_INVALID_STATE; }
    if (auto c = op_enter(h->tx, "iterator_get_value"); c != StatusCode::OK) return c;
    *r = Slice{h->v};
    return StatusCode::OK;
}
StatusCode iterator_dispose(IteratorHandle h) {
    Guard g{fake::st().m};
    if (h) { --fake::st().open_iterators; delete h; }
    return StatusCode::OK;
}
StatusCode sequence_create(DatabaseHandle, SequenceId* id) {
    Guard g{fake::st().m};
    if (auto c = fake::enter("sequence_create"); c != StatusCode::OK) return c;
    *id = fake::st().next_seq;
    fake::st().next_seq += 3;
    fake::st().seq[*id];
    return StatusCode::OK;
}
StatusCode sequence_put(TransactionHandle tx, SequenceId id, SequenceVersion version, SequenceValue value) {
    Guard g{fake::st().m};
    if (auto c = op_enter(tx->c, "sequence_put"); c != StatusCode::OK) return c;
    if (!fake::st().seq.count(id)) return StatusCode::NOT_FOUND;
    tx->c->seqs.push_back({id, version, value});
    return StatusCode::OK;
}
StatusCode sequence_get(DatabaseHandle, SequenceId id, SequenceVersion* version, SequenceValue* value) {
    Guard g{fake::st().m};
    if (auto c = fake::enter("sequence_get"); c != StatusCode::OK) return c;
    auto it = fake::st().seq.find(id);
    if (it == fake::st().seq.end() || it->second.empty()) return StatusCode::NOT_FOUND;
    *version = it->second.rbegin()->first;
    *value = it->second.rbegin()->second;
    return StatusCode::OK;
}
StatusCode sequence_delete(DatabaseHandle, SequenceId id) {
    Guard g{fake::st().m};
    if (auto c = fake::enter("sequence_delete"); c != StatusCode::OK) return c;
    return fake::st().seq.erase(id) ? StatusCode::OK : StatusCode::NOT_FOUND;
}
}  // namespace sharksfin

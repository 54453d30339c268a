// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <cstddef>
#include <cstdint>
#include <vector>
namespace sharksfin {
struct StorageStub;
struct WritePreserve {
    explicit WritePreserve(StorageStub* h) : handle_(h) {}
    [[nodiscard]] StorageStub* handle() const noexcept { return handle_; }
private:
    StorageStub* handle_;
};
struct ReadArea : WritePreserve { using WritePreserve::WritePreserve; };
class TransactionOptions final {
public:
    using TableAreas = std::vector<WritePreserve>;
    using WritePreserves = std::vector<WritePreserve>;
    using ReadAreas = std::vector<ReadArea>;
    enum class TransactionType : std::uint32_t { SHORT, LONG, READ_ONLY };
    TransactionOptions() = default;
    TransactionOptions(TransactionType t, WritePreserves w = {}, ReadAreas i = {}, ReadAreas e = {})
        : type_(t), wps_(std::move(w)), inc_(std::move(i)), exc_(std::move(e)) {}
    [[nodiscard]] TransactionType transaction_type() const noexcept { return type_; }
    TransactionOptions& transaction_type(TransactionType t) noexcept { type_ = t; return *this; }
    [[nodiscard]] WritePreserves const& write_preserves() const noexcept { return wps_; }
    [[nodiscard]] ReadAreas const& read_areas_inclusive() const noexcept { return inc_; }
    [[nodiscard]] ReadAreas const& read_areas_exclusive() const noexcept { return exc_; }
private:
    TransactionType type_{};
    WritePreserves wps_{};
    ReadAreas inc_{};
    ReadAreas exc_{};
};
}  // namespace sharksfin

// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <deque>
#include <takatori/relation/expression_kind.h>
#include <takatori/util/optional_ptr.h>
#include <takatori/util/sequence_view.h>
namespace takatori::relation {
class expression;
class port {
public:
    explicit port(expression& o) : owner_(&o) {}
    port(port const&) = delete;
    port& operator=(port const&) = delete;
    [[nodiscard]] expression& owner() const noexcept { return *owner_; }
    [[nodiscard]] util::optional_ptr<port> opposite() const noexcept { return opposite_; }
    void connect_to(port& p) {
        opposite_ = util::optional_ptr<port>{&p};
        p.opposite_ = util::optional_ptr<port>{this};
    }
    port& operator>>(port& p) {
        connect_to(p);
        return p;
    }
private:
    expression* owner_;
    util::optional_ptr<port> opposite_{};
};
class expression {
public:
    using output_port_type = port;
    using input_port_type = port;
    expression() = default;
    virtual ~expression() = default;
    expression(expression const&) = delete;
    expression& operator=(expression const&) = delete;
    [[nodiscard]] virtual expression_kind kind() const noexcept { return expression_kind::unknown; }
    [[nodiscard]] std::deque<port>& input_ports() noexcept { return in_; }
    [[nodiscard]] std::deque<port> const& input_ports() const noexcept { return in_; }
    [[nodiscard]] std::deque<port>& output_ports() noexcept { return out_; }
    [[nodiscard]] std::deque<port> const& output_ports() const noexcept { return out_; }
    [[nodiscard]] port& input() noexcept { return in_.front(); }
    [[nodiscard]] port const& input() const noexcept { return in_.front(); }
    [[nodiscard]] port& output() noexcept { return out_.front(); }
    [[nodiscard]] port const& output() const noexcept { return out_.front(); }
protected:
    expression(int in, int out) {
        for (int i = 0; i < in; ++i) in_.emplace_back(*this);
        for (int i = 0; i < out; ++i) out_.emplace_back(*this);
    }
private:
    std::deque<port> in_{}, out_{};
};
}  // namespace takatori::relation

// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <functional>
#include <vector>
#include <takatori/plan/step.h>
namespace takatori::plan {
class exchange : public step {
public:
    [[nodiscard]] std::vector<std::reference_wrapper<step const>> upstreams() const {
        std::vector<std::reference_wrapper<step const>> r;
        for (auto* s : up) r.emplace_back(*s);
        return r;
    }
};
}  // namespace takatori::plan

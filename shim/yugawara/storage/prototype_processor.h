// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <functional>
#include <string>
#include <yugawara/schema/declaration.h>
#include <yugawara/storage/index.h>
#include <yugawara/storage/table.h>
namespace yugawara::storage {
class prototype_processor {
public:
    using diagnostic_consumer_type = std::function<void(std::string const&)>;
    virtual ~prototype_processor() = default;
};
}  // namespace yugawara::storage

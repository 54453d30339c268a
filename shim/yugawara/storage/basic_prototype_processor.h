// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <yugawara/storage/prototype_processor.h>
namespace yugawara::storage {
class basic_prototype_processor : public prototype_processor {
public:
    virtual bool ensure(schema::declaration const& location, table& t, index& primary, diagnostic_consumer_type const& d) = 0;
    virtual bool ensure(schema::declaration const& location, index& secondary, diagnostic_consumer_type const& d) = 0;
};
}  // namespace yugawara::storage

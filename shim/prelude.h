// Stand-in written for /verif: what jogasaki's sources get through headers of libraries that are not installed.
#pragma once
#include <chrono>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <ostream>
#include <sstream>
#include <string>
#include <string_view>
#include <unordered_map>
#include <utility>
#include <variant>
#include <vector>
#include <boost/exception/diagnostic_information.hpp>
#include <takatori/util/downcast.h>

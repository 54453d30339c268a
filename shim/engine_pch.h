// Precompiled for the checks that build the whole engine.
#include <algorithm>
#include <any>
#include <array>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstring>
#include <deque>
#include <functional>
#include <future>
#include <iomanip>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <queue>
#include <regex>
#include <set>
#include <shared_mutex>
#include <sstream>
#include <string>
#include <thread>
#include <unordered_map>
#include <unordered_set>
#include <variant>
#include <vector>
#include <prelude.h>
#include <glog/logging.h>
#include <jogasaki/request_context.h>
#include <jogasaki/transaction_context.h>
#include <jogasaki/plan/compiler_context.h>
#include <jogasaki/executor/process/impl/ops/operator_base.h>
#include <jogasaki/api/impl/database.h>

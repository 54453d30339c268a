#pragma once
#include <boost/stacktrace.hpp>

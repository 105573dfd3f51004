#pragma once
#include "../spdlog.h"
namespace spdlog { namespace sinks {
#ifndef SPDLOG_FAST_SINKS
#define SPDLOG_FAST_SINKS
struct stdout_color_sink_mt : sink { template <class... A> explicit stdout_color_sink_mt(A &&...) {} };
struct rotating_file_sink_mt : sink { template <class... A> explicit rotating_file_sink_mt(A &&...) {} };
struct basic_file_sink_mt : sink { template <class... A> explicit basic_file_sink_mt(A &&...) {} };
#endif
} }

#pragma once
#include <cstdio>
#include <iomanip>
#include <iostream>
#include <sstream>
#include <string>
namespace fakeros {
inline bool& log_enabled() { static bool b = false; return b; }  // format log arguments (robustness checks)
inline unsigned long& log_count() { static unsigned long n = 0; return n; }
template <class... A> inline void logf(const char* f, A... a) { char b[512]; std::snprintf(b, sizeof b, f, a...); ++log_count(); }
inline void logf(const char*) { ++log_count(); }
}
#define FAKEROS_LOGS(x) do { if (::fakeros::log_enabled()) { std::ostringstream fakeros_o_; fakeros_o_ << x; ++::fakeros::log_count(); } } while (0)
#define FAKEROS_LOGF(...) do { if (::fakeros::log_enabled()) ::fakeros::logf(__VA_ARGS__); } while (0)
#define FAKEROS_LEVEL(L) 
#define ROS_DEBUG(...) FAKEROS_LOGF(__VA_ARGS__)
#define ROS_INFO(...) FAKEROS_LOGF(__VA_ARGS__)
#define ROS_WARN(...) FAKEROS_LOGF(__VA_ARGS__)
#define ROS_ERROR(...) FAKEROS_LOGF(__VA_ARGS__)
#define ROS_FATAL(...) FAKEROS_LOGF(__VA_ARGS__)
#define ROS_DEBUG_ONCE(...) FAKEROS_LOGF(__VA_ARGS__)
#define ROS_INFO_ONCE(...) FAKEROS_LOGF(__VA_ARGS__)
#define ROS_WARN_ONCE(...) FAKEROS_LOGF(__VA_ARGS__)
#define ROS_ERROR_ONCE(...) FAKEROS_LOGF(__VA_ARGS__)
#define ROS_DEBUG_COND(c, ...) do { if (c) FAKEROS_LOGF(__VA_ARGS__); } while (0)
#define ROS_INFO_COND(c, ...) do { if (c) FAKEROS_LOGF(__VA_ARGS__); } while (0)
#define ROS_WARN_COND(c, ...) do { if (c) FAKEROS_LOGF(__VA_ARGS__); } while (0)
#define ROS_ERROR_COND(c, ...) do { if (c) FAKEROS_LOGF(__VA_ARGS__); } while (0)
#define ROS_INFO_THROTTLE(r, ...) do { (void)(r); FAKEROS_LOGF(__VA_ARGS__); } while (0)
#define ROS_WARN_THROTTLE(r, ...) do { (void)(r); FAKEROS_LOGF(__VA_ARGS__); } while (0)
#define ROS_ERROR_THROTTLE(r, ...) do { (void)(r); FAKEROS_LOGF(__VA_ARGS__); } while (0)
#define ROS_DEBUG_STREAM(x) FAKEROS_LOGS(x)
#define ROS_INFO_STREAM(x) FAKEROS_LOGS(x)
#define ROS_WARN_STREAM(x) FAKEROS_LOGS(x)
#define ROS_ERROR_STREAM(x) FAKEROS_LOGS(x)
#define ROS_FATAL_STREAM(x) FAKEROS_LOGS(x)
#define ROS_DEBUG_STREAM_ONCE(x) FAKEROS_LOGS(x)
#define ROS_INFO_STREAM_ONCE(x) FAKEROS_LOGS(x)
#define ROS_WARN_STREAM_ONCE(x) FAKEROS_LOGS(x)
#define ROS_ERROR_STREAM_ONCE(x) FAKEROS_LOGS(x)
#define ROS_DEBUG_STREAM_COND(c, x) do { if (c) FAKEROS_LOGS(x); } while (0)
#define ROS_INFO_STREAM_COND(c, x) do { if (c) FAKEROS_LOGS(x); } while (0)
#define ROS_WARN_STREAM_COND(c, x) do { if (c) FAKEROS_LOGS(x); } while (0)
#define ROS_ERROR_STREAM_COND(c, x) do { if (c) FAKEROS_LOGS(x); } while (0)
#define ROS_DEBUG_STREAM_THROTTLE(r, x) do { (void)(r); FAKEROS_LOGS(x); } while (0)
#define ROS_INFO_STREAM_THROTTLE(r, x) do { (void)(r); FAKEROS_LOGS(x); } while (0)
#define ROS_WARN_STREAM_THROTTLE(r, x) do { (void)(r); FAKEROS_LOGS(x); } while (0)
#define ROS_ERROR_STREAM_THROTTLE(r, x) do { (void)(r); FAKEROS_LOGS(x); } while (0)

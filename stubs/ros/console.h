#pragma once
// Logging is replaced by empty bodies; the arguments are type-checked but never evaluated.
struct StubNullStream { template <class T> StubNullStream& operator<<(const T&) { return *this; } StubNullStream& operator<<(std::ostream& (*)(std::ostream&)) { return *this; } StubNullStream& operator<<(std::ios_base& (*)(std::ios_base&)) { return *this; } };
#define STUB_LOG(x) do { if (false) { StubNullStream s_; s_ << x; } } while (0)
#define STUB_LOGF(...) do { } while (0)
#define ROS_INFO_STREAM(x) STUB_LOG(x)
#define ROS_WARN_STREAM(x) STUB_LOG(x)
#define ROS_ERROR_STREAM(x) STUB_LOG(x)
#define ROS_FATAL_STREAM(x) STUB_LOG(x)
#define ROS_DEBUG_STREAM(x) STUB_LOG(x)
#define ROS_INFO_STREAM_ONCE(x) STUB_LOG(x)
#define ROS_WARN_STREAM_ONCE(x) STUB_LOG(x)
#define ROS_ERROR_STREAM_ONCE(x) STUB_LOG(x)
#define ROS_LOG_STREAM_THROTTLE(r, x) STUB_LOG(x)
#define ROS_INFO_STREAM_THROTTLE(r, x) STUB_LOG(x)
#define ROS_WARN_STREAM_THROTTLE(r, x) STUB_LOG(x)
#define ROS_ERROR_STREAM_THROTTLE(r, x) STUB_LOG(x)
#define ROS_INFO_STREAM_COND(c, x) STUB_LOG(x)
#define ROS_WARN_STREAM_COND(c, x) STUB_LOG(x)
#define ROS_ERROR_STREAM_COND(c, x) STUB_LOG(x)
#define ROS_INFO(...) STUB_LOGF(__VA_ARGS__)
#define ROS_WARN(...) STUB_LOGF(__VA_ARGS__)
#define ROS_ERROR(...) STUB_LOGF(__VA_ARGS__)
#define ROS_FATAL(...) STUB_LOGF(__VA_ARGS__)
#define ROS_DEBUG(...) STUB_LOGF(__VA_ARGS__)
#define ROS_INFO_ONCE(...) STUB_LOGF(__VA_ARGS__)
#define ROS_WARN_ONCE(...) STUB_LOGF(__VA_ARGS__)
#define ROS_INFO_COND(c, ...) STUB_LOGF(__VA_ARGS__)
#define ROS_WARN_COND(c, ...) STUB_LOGF(__VA_ARGS__)
#define ROS_WARN_THROTTLE(r, ...) STUB_LOGF(__VA_ARGS__)
#define ROS_ERROR_THROTTLE(r, ...) STUB_LOGF(__VA_ARGS__)
#define ROS_DEBUG_STREAM_THROTTLE(r, x) STUB_LOG(x)
#define ROS_DEBUG_STREAM_ONCE(x) STUB_LOG(x)
#define ROS_DEBUG_STREAM_COND(c, x) STUB_LOG(x)
#define ROS_INFO_THROTTLE(r, ...) STUB_LOGF(__VA_ARGS__)
#define ROS_DEBUG_THROTTLE(r, ...) STUB_LOGF(__VA_ARGS__)
#define ROS_ERROR_ONCE(...) STUB_LOGF(__VA_ARGS__)
#define ROS_ERROR_COND(c, ...) STUB_LOGF(__VA_ARGS__)
#define ROS_FATAL_COND(c, ...) STUB_LOGF(__VA_ARGS__)

// Simulated rosconsole: which logger has which level.
#pragma once
#include "ros/ros.h"
namespace ros { namespace console {
namespace levels { enum Level { Debug, Info, Warn, Error, Fatal, Count }; }
typedef levels::Level Level;
inline std::map<std::string, Level>& simlevels() { static auto* m = new std::map<std::string, Level>; return *m; }
inline bool set_logger_level(const std::string& name, Level level) { sim::NoPreempt np; simlevels()[name] = level; sim::event("level of %s: %d", name.c_str(), (int)level); return true; }
inline void notifyLoggerLevelsChanged() {}
} }
#define SIM_ROS_STREAM(level, args) do { std::stringstream sim_ss; sim_ss << args; sim::NoPreempt sim_np; sim::event(level ": %s", sim_ss.str().c_str()); } while (0)
#define ROS_DEBUG_STREAM(args) SIM_ROS_STREAM("debug", args)
#define ROS_INFO_STREAM(args) SIM_ROS_STREAM("info", args)
#define ROS_WARN_STREAM(args) SIM_ROS_STREAM("warn", args)
#define ROS_ERROR_STREAM(args) SIM_ROS_STREAM("error", args)
#define ROS_FATAL_STREAM(args) SIM_ROS_STREAM("fatal", args)
#define SIM_ROS_PRINTF(level, ...) do { char sim_b[1024]; std::snprintf(sim_b, sizeof sim_b, __VA_ARGS__); sim::NoPreempt sim_np; sim::event(level ": %s", sim_b); } while (0)
#define ROS_DEBUG(...) SIM_ROS_PRINTF("debug", __VA_ARGS__)
#define ROS_INFO(...) SIM_ROS_PRINTF("info", __VA_ARGS__)
#define ROS_WARN(...) SIM_ROS_PRINTF("warn", __VA_ARGS__)
#define ROS_ERROR(...) SIM_ROS_PRINTF("error", __VA_ARGS__)

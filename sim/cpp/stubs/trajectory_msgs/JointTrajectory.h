// The message types of trajectory_msgs, as genmsg lays them out.
#pragma once
#include "geometry_msgs/stub_types.hpp"
#include "JointTrajectoryPoint.h"
namespace trajectory_msgs {
struct JointTrajectory { std_msgs::Header header; std::vector<std::string> joint_names; std::vector<JointTrajectoryPoint> points; };
}

#pragma once
#include <memory>
#include <string>
namespace urdf {
class JointSafety { public: JointSafety() { clear(); } double soft_upper_limit, soft_lower_limit, k_position, k_velocity;
  void clear() { soft_upper_limit = soft_lower_limit = k_position = k_velocity = 0; } };
class JointLimits { public: JointLimits() { clear(); } double lower, upper, effort, velocity; void clear() { lower = upper = effort = velocity = 0; } };
class JointDynamics { public: double damping = 0, friction = 0; };
class Joint { public: Joint() : type(UNKNOWN) {}
  std::string name; enum { UNKNOWN, REVOLUTE, CONTINUOUS, PRISMATIC, FLOATING, PLANAR, FIXED } type;
  std::string child_link_name, parent_link_name;
  std::shared_ptr<JointDynamics> dynamics; std::shared_ptr<JointLimits> limits; std::shared_ptr<JointSafety> safety; };
typedef std::shared_ptr<Joint> JointSharedPtr; typedef std::shared_ptr<const Joint> JointConstSharedPtr;
typedef std::shared_ptr<JointLimits> JointLimitsSharedPtr; typedef std::shared_ptr<JointSafety> JointSafetySharedPtr;
}

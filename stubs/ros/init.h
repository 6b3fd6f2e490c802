#pragma once
#include <ros/ros.h>
#include <ros/common.h>

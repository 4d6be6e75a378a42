#pragma once
#include <pcl_conversions/pcl_conversions.h>

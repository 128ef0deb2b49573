#pragma once
#include <tesseract/common/types.h>
namespace tesseract::common
{
class JointTrajectory;
}

#pragma once
namespace tesseract::collision
{
class DiscreteContactManager;
class ContinuousContactManager;
struct ContactResult;
class ContactResultMap;
}  // namespace tesseract::collision

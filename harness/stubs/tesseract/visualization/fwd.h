#pragma once
namespace tesseract::visualization
{
class Visualization;
}

#pragma once
#include <tesseract/common/utils.h>

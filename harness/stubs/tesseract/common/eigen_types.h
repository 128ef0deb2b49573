#pragma once
#include <tesseract/common/types.h>

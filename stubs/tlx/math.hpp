#pragma once
#include "tlx/math/div_ceil.hpp"

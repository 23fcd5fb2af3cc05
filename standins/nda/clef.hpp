#pragma once
#include "clef/clef.hpp"
#include "clef/adapters/math.hpp"
#include "clef/sum.hpp"

#pragma once
#include "nda.hpp"

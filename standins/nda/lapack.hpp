#pragma once
#include "nda.hpp"
#include "lapack/gelss_worker.hpp"

#pragma once
#include "nda.hpp"
#include "linalg/det_and_inverse.hpp"
#include "linalg/eigenelements.hpp"
#include "linalg/cross_product.hpp"

// The library's headers, for C++.
#pragma once
#include "sim.h"
extern "C" {
#include "config.h"
#include "l1c.h"
#include "l1qc_newton.h"
#include "linesearch.h"
#include "nesta.h"
#include "TV.h"
#include "l1c_math.h"
#include "l1c_logging.h"
#include "bregman.h"
#include "json_utils.h"
#include "vcl_math.h"
}

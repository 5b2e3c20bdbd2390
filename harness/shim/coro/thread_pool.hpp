#pragma once
#include "shim_core.hpp"

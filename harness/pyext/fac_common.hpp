#pragma once
#include "index.hpp"

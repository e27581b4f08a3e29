#pragma once
#include "cuemu.h"

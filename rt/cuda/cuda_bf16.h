#pragma once
#include "cuhalf.h"

#pragma once
#include "mini.h"

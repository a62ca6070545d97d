#pragma once
#define SIMDEV_HIP
#include "simdev.h"

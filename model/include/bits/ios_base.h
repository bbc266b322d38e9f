#pragma once
#include <vpm_io.h>

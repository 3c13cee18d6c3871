#include "base/types.h"

#include "tiny_api.h"

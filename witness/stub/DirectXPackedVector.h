#include "DirectXMath.h"

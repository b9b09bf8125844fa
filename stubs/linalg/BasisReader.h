#include "librom_stub.h"

#include "../../stub.h"

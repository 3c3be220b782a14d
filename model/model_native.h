#include "model.h"
#include "main.h"

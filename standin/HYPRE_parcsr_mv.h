#include "hypre.h"

#include "verif_stub.h"

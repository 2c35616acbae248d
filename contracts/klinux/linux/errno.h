#include <asm-generic/errno.h>
#include "../kshim.h"

// the build option that makes this the type of rows
#include "config.h"
#undef MASSTREE_ROW_TYPE_BAG
#define MASSTREE_ROW_TYPE_ARRAY 1

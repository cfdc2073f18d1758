#include "clang_standin.h"

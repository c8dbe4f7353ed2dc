#include "../standin.hpp"
#include "../standin_cfunc.hpp"

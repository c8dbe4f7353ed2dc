#pragma once
#include <heyoka/standin.hpp>

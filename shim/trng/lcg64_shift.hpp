#include "engine.hpp"

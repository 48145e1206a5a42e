#include "drobot/drobot.hpp"
typedef DockRobot Dom;
#include "fns.hpp"

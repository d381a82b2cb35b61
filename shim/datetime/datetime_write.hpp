#include "datetime/dtcalendar.hpp"

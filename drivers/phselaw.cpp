// C18: the stand-alone phase law program (var/antenna).
#include <bits/stdc++.h>
#define main phselaw_main
#include "phselaw.cc"
#undef main
namespace dso { using ::AntennaOffset; using ::GroundAntennaType; }
#define PHSELAW
#include "sysinfo_pcv.hpp"

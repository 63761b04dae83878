// stand-in for the flight software's headers: only what the command sender uses
#pragma once
#define C2A_CORE_VER_MAJOR 4

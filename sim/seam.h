/* Forced-include for every translation unit of Minxrod/sbc built under the
 * simulator.  Only redirects the debug log (printf) to a silent stand-in; all
 * other seams are taken at link level (ld --wrap) or by replacing libcsfml. */
#pragma once
#include <stdio.h>
int sim_printf(const char* fmt, ...);
#define printf sim_printf

// the library's own translation units, as found in /repo (the list is generated by check.py)
#include "lib_sources.inc"

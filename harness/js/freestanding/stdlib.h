/* Stands in for the C library when only layouts are wanted. */
#include <stddef.h>

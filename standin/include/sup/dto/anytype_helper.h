// Part of the stand-in for sup-dto; everything is declared in anyvalue.h.
#pragma once
#include <sup/dto/anyvalue.h>

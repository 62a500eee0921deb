#include "delay.h"

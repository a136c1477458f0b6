#pragma once
#include "../sxmodel_ios.h"

#pragma once
#include "datastore.h"

#pragma once
#define PARAMETER_FRAMEWORK_VERSION "0.0.0"

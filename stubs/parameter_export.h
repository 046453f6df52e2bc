#pragma once
#define PARAMETER_EXPORT
#define PARAMETER_NO_EXPORT
#define PARAMETER_DEPRECATED

#pragma once
#define CPARAMETER_EXPORT
#define CPARAMETER_NO_EXPORT

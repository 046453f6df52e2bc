#pragma once
#define REMOTE_PROCESSOR_EXPORT
#define REMOTE_PROCESSOR_NO_EXPORT

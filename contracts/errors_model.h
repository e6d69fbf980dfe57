// NotifyFd's static member lives in src/event.cpp, which is not part of this unit.
#ifndef ERRORS_MODEL_H
#define ERRORS_MODEL_H
#endif

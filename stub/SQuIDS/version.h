#ifndef VP_SQUIDS_VERSION_H
#define VP_SQUIDS_VERSION_H
#define SQUIDS_VERSION 103000
#define SQUIDS_VERSION_STR "1.3.0"
#endif

#ifndef VP_NUSQUIDS_VERSION_H
#define VP_NUSQUIDS_VERSION_H
#define NUSQUIDS_VERSION 1110000
#define NUSQUIDS_VERSION_STR "1.11.0"
#endif

/* Simulator build */
#define DAV1D_VERSION "sim"

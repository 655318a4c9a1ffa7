// a plugin whose behaviour is decided by the checker from the path it was loaded from
#include "VapourSynth4.h"
#include <dlfcn.h>
extern "C" void seq_tiny_init(const char *path, VSPlugin *plugin, const VSPLUGINAPI *vspapi);
#ifndef NOENTRY
VS_EXTERNAL_API(void) VapourSynthPluginInit2(VSPlugin *plugin, const VSPLUGINAPI *vspapi) {
    Dl_info i = {};
    dladdr((void *)&VapourSynthPluginInit2, &i);
    seq_tiny_init(i.dli_fname, plugin, vspapi);
}
#else
extern "C" __attribute__((visibility("default"))) int something() { return 1; }
#endif

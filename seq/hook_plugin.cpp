// plugin whose init function is supplied by the checker (symbol resolved from the executable)
#include "VapourSynth4.h"
extern "C" void seq_plugin_init(VSPlugin *plugin, const VSPLUGINAPI *vspapi);
VS_EXTERNAL_API(void) VapourSynthPluginInit2(VSPlugin *plugin, const VSPLUGINAPI *vspapi) {
    seq_plugin_init(plugin, vspapi);
}

// The library built with the extension, compiled into its own namespace (-Dmshio=mshio_ext) so that one harness can
// exchange files between the two build configurations.
#include <mshio/mshio.h>

#include <sstream>
#include <string>

#ifndef MSHIO_EXT_NANOSPLINE
#error "to be compiled with the extension"
#endif

std::string ext_resave(const std::string& bytes, const char* version, int file_type)
{
    std::istringstream in(bytes, std::ios::binary);
    mshio::MshSpec s = mshio::load_msh(in);
    if (version) {
        s.mesh_format.version = version;
        s.mesh_format.file_type = file_type;
    }
    std::ostringstream out(std::ios::binary);
    mshio::save_msh(out, s);
    return out.str();
}

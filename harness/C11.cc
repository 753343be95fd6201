// C11: configs survive a TOML write and read unchanged
// technique: exhaustive exploration of configs (shapes up to a size, value grids) through the real TOML writer and reader, compared with a reference model of the content
#include "rt.h"
static const rt::Format F = { "toml", dio_toml_serialize_config, dio_toml_unserialize_config };
int main (int argc, char **argv)
{
    mc::Info i = { "C11", "exploration", "a distinct config written and read back",
                   { "values are finite numbers and strings without NUL bytes (UTF-8 or ASCII including control characters)" }, nullptr, nullptr };
    return mc::main (argc, argv, i, {
        { "shapes", 3, [] (mc::Ctx &c) { rt::shapes (c, F, c.thorough () ? 5 : 4); } },
        { "numbers", 3, [] (mc::Ctx &c) { rt::numbers (c, F); } },
        { "strings", 3, [] (mc::Ctx &c) { rt::strings (c, F); } },
        { "other", 2, [] (mc::Ctx &c) { rt::other (c, F); } },
    });
}

// Plugin libraries for C30: they report what happens to them to the harness that loads them.
#include <disir/disir.h>
#include <disir/plugin.h>
#include <string.h>
extern void c30_event (const char *fmt, ...);
#define X(x) #x
#define S(x) X(x)
#define NAME S(KIND)
__attribute__ ((constructor)) static void loaded (void) { c30_event ("load %s", NAME); }
__attribute__ ((destructor)) static void unloaded (void) { c30_event ("unload %s", NAME); }
#ifdef UNRESOLVED
extern void c30_there_is_no_such_function (void);
void use (void) { c30_there_is_no_such_function (); }
#endif
#ifndef NOSYM
static enum disir_status query (struct disir_instance *i, struct disir_register_plugin *p, const char *e, struct disir_entry **o) { c30_event ("query %s %s", p->dp_config_base_id ? p->dp_config_base_id : "-", e); return DISIR_STATUS_NOT_EXIST; }
static enum disir_status finished (struct disir_instance *i, struct disir_register_plugin *p) { c30_event ("finished %s %s", NAME, p->dp_config_base_id ? p->dp_config_base_id : "-"); return DISIR_STATUS_OK; }
enum disir_status dio_register_plugin (struct disir_instance *instance, struct disir_register_plugin *p)
{
    c30_event ("register %s %s %s", NAME, p->dp_config_base_id ? p->dp_config_base_id : "-", p->dp_mold_base_id ? p->dp_mold_base_id : "-");
#ifdef FAIL
    return FAIL;
#endif
    p->dp_name = NAME; p->dp_description = "recording"; p->dp_config_entry_type = "rec"; p->dp_mold_entry_type = "rec"; p->dp_config_query = query; p->dp_plugin_finished = finished;
#ifdef OMIT
    p->OMIT = 0;
#endif
    return DISIR_STATUS_OK;
}
#endif

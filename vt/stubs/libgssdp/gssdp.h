/* Stand-in for libgssdp: no multicast ever leaves the process. */
#ifndef VT_GSSDP_H
#define VT_GSSDP_H
#include <glib-object.h>
G_BEGIN_DECLS
typedef struct _VtGssdpClient { GObject parent; } GSSDPClient;
typedef struct _VtGssdpGroup { GObject parent; gboolean available; guint nres; } GSSDPResourceGroup;
GSSDPClient *gssdp_client_new (const char *iface, GError **error);
void gssdp_client_set_server_id (GSSDPClient *, const char *);
const char *gssdp_client_get_host_ip (GSSDPClient *);
gboolean gssdp_client_get_active (GSSDPClient *);
GSSDPResourceGroup *gssdp_resource_group_new (GSSDPClient *);
guint gssdp_resource_group_add_resource_simple (GSSDPResourceGroup *,
                                                const char *, const char *,
                                                const char *);
void gssdp_resource_group_set_available (GSSDPResourceGroup *, gboolean);
gboolean gssdp_resource_group_get_available (GSSDPResourceGroup *);
G_END_DECLS
#endif

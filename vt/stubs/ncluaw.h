/* Stand-in for NCLua's ncluaw: a scripted engine that records what it gets. */
#ifndef VT_NCLUAW_H
#define VT_NCLUAW_H
#ifdef __cplusplus
extern "C" {
#endif
typedef struct _ncluaw_t ncluaw_t;
typedef enum { NCLUAW_EVENT_UNKNOWN = 0, NCLUAW_EVENT_KEY, NCLUAW_EVENT_NCL,
               NCLUAW_EVENT_POINTER, NCLUAW_EVENT_USER } ncluaw_event_type_t;
typedef struct _ncluaw_event_t
{
  ncluaw_event_type_t cls;
  union
  {
    struct { const char *type; const char *key; } key;
    struct { const char *type; const char *action; const char *name;
             const char *value; } ncl;
    struct { const char *type; int x; int y; } pointer;
  } u;
} ncluaw_event_t;
ncluaw_t *ncluaw_open (const char *path, int width, int height, char **errmsg);
void ncluaw_close (ncluaw_t *nw);
void ncluaw_cycle (ncluaw_t *nw);
ncluaw_event_t *ncluaw_receive (ncluaw_t *nw);
void ncluaw_event_free (ncluaw_event_t *);
void ncluaw_send (ncluaw_t *, const ncluaw_event_t *);
void ncluaw_send_key_event (ncluaw_t *, const char *type, const char *key);
void ncluaw_send_ncl_event (ncluaw_t *, const char *type, const char *action,
                            const char *name, const char *value);
void *ncluaw_debug_get_surface (ncluaw_t *);
#ifdef __cplusplus
}
#endif
#endif

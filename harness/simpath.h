extern const char *sim_sockpath_get(void);
#define sim_sockpath (sim_sockpath_get())

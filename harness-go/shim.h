void shim_open(const char *path);
void shim_tick(void);
void shim_close(void);
long shim_live(void);

#pragma once
extern void (*vf_alloc_emit)(const char *line);
extern int  vf_alloc_destroy;
void
vf_alloc_flush(void);
// records all references now; "empty": nothing but the fixed metadata may be left
void
vf_alloc_check(int empty);
